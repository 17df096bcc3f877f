#!/usr/bin/env python3
"""
Undoes each "fix:" commit of /repo in a scratch copy and runs the check of the
property it was made for: revert_fixes.py [COMMIT ...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = '/verif'


def one(item):
    prop, commit, what = item
    work = tempfile.mkdtemp(prefix='revert_', dir='/tmp')
    os.chmod(work, 0o755)       # checks may run as another user
    try:
        repo, verif = os.path.join(work, 'repo'), os.path.join(work, 'verif')
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(HERE, verif, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded',
                                                      'evidence', 'replays'))
        r = subprocess.run(['git', 'revert', '-n', commit], cwd=repo,
                           capture_output=True, text=True)
        if r.returncode:
            return item, 'CANNOT BE UNDONE ALONE'
        r = subprocess.run(['/opt/venv/bin/python', 'check.py', prop],
                           cwd=verif, capture_output=True, text=True,
                           env={**os.environ, 'VERIF_REPO': repo})
        hit = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
        return item, 'reported' if hit else f'NOT REPORTED ({r.returncode})'
    finally:
        shutil.rmtree(work)


def main():
    items = []
    for line in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
        m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', line)
        if m and (not sys.argv[1:] or m[2] in sys.argv[1:]):
            items.append(m.groups())
    with ThreadPoolExecutor(4) as pool:
        for (prop, commit, what), res in pool.map(one, items):
            print(f'{prop} {commit} {res:24} {what}', flush=True)


if __name__ == '__main__':
    main()
