#!/usr/bin/env python3
"""
Writes planted bugs: seed.py SPEC.py [ID ...]

A spec is a Python file with ``SEEDS``, a list of dicts with id, property,
edits (list of (file, old, new)), demo (Python source), needs, breaks. Each is
tried in a scratch copy of /repo, where it has to apply, touch only lines of
the original repository, build, keep the stable tests passing and make the demo
fail, which passes without it; then it is written to /verif/seeded/<id>.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

BASE = 'e51dbb6'
REPO = '/repo'
OUT = '/verif/seeded'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}
ENV.pop('PYTHONPATH', None)
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 280 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                          env=ENV, **kw)


def original(copy, file):
    """numbers of the lines of file that the original repository has"""
    mine = set(sh(['git', 'rev-list', f'{BASE}..HEAD'], copy).stdout.split())
    out = sh(['git', 'blame', '-l', '-s', '--', file], copy).stdout
    return {i for i, line in enumerate(out.splitlines(), 1)
            if line.split()[0].lstrip('^')[:39] not in {m[:39] for m in mine}}


def tests(copy):
    xml = os.path.join(copy, '..', 'junit.xml')
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', f'--rootdir={copy}',
            '-p', 'no:cacheprovider', '--timeout=300', '--tb=no',
            '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
            f'--junitxml={xml}'], copy)
    passed = set()
    for c in ET.parse(xml).iter('testcase'):
        if not any(c.find(k) is not None for k in ('failure', 'error', 'skipped')):
            passed.add(f"{c.get('classname')}::{c.get('name')}")
    return STABLE - passed


def try_seed(s):
    work = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    os.chmod(work, 0o755)       # checks may run as another user
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree(REPO, copy, symlinks=True)
        folder = os.path.join(work, 'x', s['id'])
        os.makedirs(folder)
        with open(os.path.join(folder, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        with open(os.path.join(folder, 'demo.py'), 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        demo = ['bash', os.path.join(folder, 'demo.sh')]
        r = sh(demo, copy)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stderr[-600:]
        for file, old, new in s['edits']:
            p = os.path.join(copy, file)
            t = open(p).read()
            if t.count(old) != 1:
                return f'{t.count(old)} matches in {file} of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        patch = sh(['git', 'diff'], copy).stdout
        file = ln = None
        removed, orig, cache = 0, 0, {}
        for line in patch.splitlines():
            if line.startswith('--- a/'):
                file = line[6:]
            elif m := re.match(r'@@ -(\d+)', line):
                ln = int(m[1])
            elif file and ln is not None and not line.startswith('+++'):
                if line.startswith('-'):
                    if file not in cache:
                        c2 = os.path.join(work, 'blame')
                        if not os.path.exists(c2):
                            shutil.copytree(REPO, c2, symlinks=True)
                        cache[file] = original(c2, file)
                    removed += 1
                    if ln in cache[file]:
                        orig += 1
                    else:
                        print(f'  {s["id"]}: not original: {line}')
                    ln += 1
                elif line.startswith(' '):
                    ln += 1
        if not removed or orig < removed:
            return f'only {orig} of {removed} changed lines are original'
        r = sh(['/opt/venv/bin/python', '-m', 'compileall', '-q', '-f',
                *{e[0] for e in s['edits']}], copy)
        if r.returncode:
            return 'does not compile'
        for d, _, fs in os.walk(copy):
            if d.endswith('__pycache__'):
                shutil.rmtree(d)
        if missing := tests(copy):
            return f'{len(missing)} tests fail: {sorted(missing)[:4]}'
        r = sh(demo, copy)
        if r.returncode == 0:
            return 'demo passes with the patch'
        why = r.stderr.strip().splitlines()[-1:] or ['']
        out = os.path.join(OUT, s['id'])
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(folder, out)
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(patch)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']}, f, indent=1)
            f.write('\n')
        return f'ok ({why[0][:150]})'
    finally:
        shutil.rmtree(work)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    seeds = [s for s in spec['SEEDS']
             if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as pool:
        for s, res in zip(seeds, pool.map(try_seed, seeds)):
            print(f'{s["id"]}: {res}')


if __name__ == '__main__':
    main()
