#!/usr/bin/env python3
"""
Mutation campaign: mutate.py FILE ... [-o OUT] [-j N] [--list]

Makes every small change of a fixed set of kinds to the given source files of
/repo, one at a time in scratch copies, and runs those that pass the
repository's stable tests against the checks that concern the file. What no
check reports is left to be read: an equivalent change, one outside all
properties, or a gap.
"""
import argparse
import ast
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import warnings
import queue

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed  # noqa: E402

warnings.simplefilter('ignore')
CHECKS = {
    'citrine/storage/collection.py': 'C01 C08 C02',
    'citrine/storage/group.py': 'C04 C08 C02',
    'citrine/storage/utils.py': 'C04 C08',
    'citrine/storage/container.py': 'C08 C07 C06 C05',
    'citrine/storage/transaction.py': 'C09 C10 C11',
    'citrine/database/containerdb.py': 'C09 C13 C14',
    'citrine/connection/container_connection.py':
        'C08 C10 C09 C14',
    'citrine/connection/connection.py': 'C15 C14',
    'citrine/connection/group_connection.py': 'C15',
    'citrine/persistence.py': 'C16 C18',
    'citrine/cluster_tools/clusterdb/container.py': 'C18 C16',
    'citrine/cluster_tools/dbmodule/dbmodule.py': 'C17',
    'citrine/cluster_tools/dbmodule/dbgroup.py': 'C15 C17',
    'citrine/client/container_client.py': 'C29',
    'citrine/exceptions.py': 'C09 C01 C14 C02',
    'jsonld/kamino.py': 'C23 C24',
    'jsonld/package.py': 'C24 C23 C22',
    'jsonld/base.py': 'C19 C20 C24 C23 C21',
    'jsonld/jsonld.py': 'C20 C21 C22',
    'jsonld/utils.py': 'C20 C21 C26 C25 C24',
    'jsonld/docloader.py': 'C28',
    'jsonld/engine/json_input.py': 'C22 C20 C21 C25',
    'jsonld/engine/jsonld_engine.py': 'C22 C24 C21',
    'jsonld/engine/utils.py': 'C22 C21',
    'jsonld/tools/datetime.py': 'C27 C21',
    'jsonld/tools/url.py': 'C28 C26 C21',
    'jsonld/tools/type.py': 'C26 C22',
    'jsonld/tools/number.py': 'C26',
    'activitystreams/models.py': 'C20 C26 C25 C21 C24 C23',
    'activitystreams/properties.py': 'C26 C25 C20 C21',
    'activitystreams/package.py': 'C24 C25 C23 C21 C22',
}

CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: ast.Sub(), ast.Sub: ast.Add(), ast.Mult: ast.FloorDiv(),
       ast.FloorDiv: ast.Div(), ast.Div: ast.Mult(), ast.Mod: ast.FloorDiv(),
       ast.BitOr: ast.BitAnd(), ast.Pow: ast.Mult()}
SWAP = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
        'sum': 'len', 'issubclass': 'isinstance'}
DROP = {'list', 'tuple', 'sorted', 'reversed', 'set', 'dict', 'str', 'bool',
        'int', 'float', 'abs', 'deepcopy', 'copy', 'iter', 'frozenset'}


def mutants(src):
    """(line, kind, new source) of every change"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    raw = src.encode()

    def pos(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    out = []

    def put(n, text, kind):
        a, b = pos(n)
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        out.append((n.lineno, kind, new))

    def u(n):
        return ast.unparse(n)

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and \
                n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef):
            for x in ([n.returns] if n.returns else []) + [
                    a.annotation for a in n.args.args + n.args.kwonlyargs
                    if a.annotation]:
                doc.update(ast.walk(x))
        if isinstance(n, ast.AnnAssign):
            doc.update(ast.walk(n.annotation))
        if isinstance(n, ast.JoinedStr):
            doc.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            # texts of exceptions do not matter
            if isinstance(n.exc, ast.Call):
                for x in n.exc.args + n.exc.keywords:
                    doc.update(ast.walk(x))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, ast.Attribute) \
                and n.func.value.attr == 'logger':
            doc.update(ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            doc.add(n)

    for n in ast.walk(tree):
        if isinstance(n, (ast.Expr, ast.Assign)) and 'logg' in u(n):
            doc.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = u(n.left), u(n.comparators[0])
            if isinstance(n.left, (ast.BoolOp, ast.IfExp, ast.NamedExpr,
                                   ast.Compare)):
                l = f'({l})'
            op = n.ops[0]
            put(n, f'({l} {CMP[type(op)]} {r})', 'compare')
            extra = {ast.Lt: ['>'], ast.Gt: ['<'], ast.LtE: ['=='],
                     ast.GtE: ['=='], ast.Is: ['=='], ast.Eq: ['is']}
            for e in extra.get(type(op), []):
                put(n, f'({l} {e} {r})', 'compare')
        elif isinstance(n, ast.BoolOp):
            other = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + other.join(f'({u(v)})' for v in n.values) + ')',
                'boolop')
            for i in range(len(n.values)):
                sep = ' and ' if isinstance(n.op, ast.And) else ' or '
                rest = n.values[:i] + n.values[i + 1:]
                put(n, '(' + sep.join(f'({u(v)})' for v in rest) + ')',
                    f'drop operand {i}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f'bool({u(n.operand)})', 'drop not')
        elif isinstance(n, ast.UnaryOp):
            put(n, f'({u(n.operand)})', 'drop unary')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f'({u(ast.BinOp(n.left, BIN[type(n.op)], n.right))})',
                'binop')
            put(n, f'({u(n.left)})', 'left')
            put(n, f'({u(n.right)})', 'right')
        elif isinstance(n, ast.IfExp):
            put(n, f'({u(n.body)})', 'ifexp body')
            put(n, f'({u(n.orelse)})', 'ifexp else')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, f'(not ({u(n.test)}))' if isinstance(n, ast.If)
                else 'False', 'negate')
            if isinstance(n, ast.If):
                put(n.test, 'True', 'if True')
                put(n.test, 'False', 'if False')
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                put(c, 'True', 'comprehension True')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), 'bool')
            elif isinstance(v, (int, float)):
                put(n, str(v + 1), 'n+1')
                put(n, str(v - 1) if v > 0 else '(-1)', 'n-1')
            elif isinstance(v, str) and v:
                put(n, repr(v[:-1] + '_'), 'string')
        elif isinstance(n, ast.Call):
            f = u(n.func)
            if isinstance(n.func, ast.Name) and f in SWAP:
                put(n.func, SWAP[f], 'swap function')
            if isinstance(n.func, ast.Name) and f in DROP and \
                    len(n.args) == 1 and not n.keywords:
                put(n, f'({u(n.args[0])})', 'drop call')
            if isinstance(n.func, ast.Attribute) and not n.args and \
                    not n.keywords and n.func.attr != '__init__':
                put(n, f'{u(n.func.value)}', 'drop method')
            for i, k in enumerate(n.keywords):
                c = ast.Call(n.func, n.args,
                             n.keywords[:i] + n.keywords[i + 1:])
                put(n, u(c), f'drop keyword {k.arg}')
            if n.args and len(n.args) > 1:
                c = ast.Call(n.func, n.args[:-1], n.keywords)
                put(n, u(c), 'drop last argument')
                if len(n.args) == 2:
                    c = ast.Call(n.func, n.args[::-1], n.keywords)
                    put(n, u(c), 'swap arguments')
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)) and \
                isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            for i in range(len(n.elts)):
                m = type(n)(elts=n.elts[:i] + n.elts[i + 1:])
                if not isinstance(n, ast.Set):
                    m.ctx = ast.Load()
                put(n, u(m) if m.elts or not isinstance(n, ast.Set)
                    else 'set()', f'drop element {i}')
        elif isinstance(n, ast.Dict):
            for i in range(len(n.keys)):
                put(n, u(ast.Dict(n.keys[:i] + n.keys[i + 1:],
                                  n.values[:i] + n.values[i + 1:])),
                    f'drop entry {i}')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, u(n.value), 'drop slice')
        elif isinstance(n, ast.Return) and n.value is not None and \
                not (isinstance(n.value, ast.Constant)
                     and n.value.value is None):
            put(n, 'return None', 'return None')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                            ast.Delete)) and not (
                isinstance(n, ast.Expr) and
                isinstance(n.value, ast.Constant)):
            put(n, 'pass', 'delete statement')
            if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                m = ast.AugAssign(n.target, BIN[type(n.op)], n.value)
                put(n, u(m), 'augmented')
        elif isinstance(n, ast.Break):
            put(n, 'pass', 'drop break')
            put(n, 'continue', 'continue')
        elif isinstance(n, ast.Continue):
            put(n, 'pass', 'drop continue')
            put(n, 'break', 'break')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            if u(n.type) != 'Exception':
                put(n.type, 'Exception', 'except Exception')
            put(n.type, 'ZeroDivisionError', 'except nothing')
        elif isinstance(n, ast.FunctionDef):
            for i, d in enumerate(n.decorator_list):
                if u(d) == 'autocommit' or u(d).startswith('_'):
                    a, b = pos(d)
                    new = (raw[:a - 1] + raw[b:]).decode()
                    out.append((d.lineno, f'drop decorator {u(d)}', new))
    # order of neighbouring statements
    for n in ast.walk(tree):
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if not isinstance(body, list) or isinstance(
                    n, (ast.Module, ast.ClassDef)):
                continue
            for x, y in zip(body, body[1:]):
                if x in doc or isinstance(y, (ast.Return, ast.Raise)) or \
                        isinstance(x, ast.FunctionDef) or \
                        isinstance(y, ast.FunctionDef):
                    continue
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign):
                    used = {z.id for z in ast.walk(y.value)
                            if isinstance(z, ast.Name)} | {
                            z.attr for z in ast.walk(y.value)
                            if isinstance(z, ast.Attribute)}
                    made = {getattr(t, 'id', getattr(t, 'attr', None))
                            for t in x.targets}
                    if not used & made:
                        continue
                (a, b), (c, d) = pos(x), pos(y)
                new = (raw[:a] + raw[c:d] + raw[b:c] + raw[a:b]
                       + raw[d:]).decode()
                out.append((x.lineno, 'swap statements', new))
    seen, res = {src}, []
    for line, kind, new in out:
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        res.append((line, kind, new))
    return sorted(res, key=lambda r: r[0])


UNUSUAL = {
    'strip': 'isinstance({p}, str) and {p}.strip() != {p}: {p} = {p}.strip()',
    'lower': 'isinstance({p}, str) and len({p}) > 1 and {p} != {p}.lower():'
             ' {p} = {p}.lower()',
    'cut': 'isinstance({p}, str) and len({p}) > 60: {p} = {p}[:60]',
    'ascii': 'isinstance({p}, str) and not {p}.isascii():'
             ' {p} = __import__("unicodedata").normalize("NFKD", {p})',
    'few': 'isinstance({p}, (list, tuple)) and len({p}) > 2: {p} = {p}[:2]',
    'once': 'isinstance({p}, (list, tuple)) and len({p}) > 1 and '
            '{p}[0] == {p}[-1]: {p} = {p}[:-1]',
    'sort': 'isinstance({p}, (list, tuple)) and len({p}) > 1 and '
            'all(isinstance(x, str) for x in {p}):'
            ' {p} = type({p})(sorted({p}))',
    'keys': 'isinstance({p}, dict) and len({p}) > 3: {p} = '
            'dict(list({p}.items())[:-1])',
    'none': 'isinstance({p}, dict): {p} = '
            '{{k: v for k, v in {p}.items() if v is not None}}',
    'falsy': 'isinstance({p}, (int, float, str, list)) and not {p}: {p} = None',
    'big': 'type({p}) in (int, float) and {p} > 100: {p} = 100',
    'sign': 'type({p}) in (int, float) and {p} < 0: {p} = -{p}',
    'round': 'isinstance({p}, float): {p} = round({p}, 2)',
}


FOR = {'str': 'strip lower cut ascii falsy', 'list': 'few once sort falsy',
       'tuple': 'few once sort', 'dict': 'keys none', 'int': 'big sign falsy',
       'float': 'big sign round falsy'}


def types(path):
    """Lines file:function:argument:type of calls seen."""
    seen = {}
    for x in set(open(path)):
        file, func, arg, kind = x.strip().split(':')
        seen.setdefault((file.replace('/repo/', ''), func, arg), set()).update(
            FOR.get(kind, '').split())
    return seen


def unusual(src, seen=None, file=None):
    """Functions that go wrong for unusual arguments."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    res = []
    for n in ast.walk(tree):
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        body = n.body
        first = body[0]
        at = first.lineno - 1
        if isinstance(first, ast.Expr) and \
                isinstance(first.value, ast.Constant) and len(body) > 1:
            first = body[1]
            at = first.lineno - 1
        if getattr(first, 'decorator_list', None):
            at = first.decorator_list[0].lineno - 1
        if first.lineno == n.lineno:
            continue
        args = [a.arg for a in n.args.args + n.args.kwonlyargs
                if a.arg not in ('self', 'cls')]
        if n.args.kwarg:
            args.append(n.args.kwarg.arg)
        if n.args.vararg:
            args.append(n.args.vararg.arg)
        for a in args:
            for kind, text in UNUSUAL.items():
                if seen is not None and \
                        kind not in seen.get((file, n.name, a), ()):
                    continue
                new = lines[:at] + [' ' * first.col_offset + 'if ' +
                                    text.format(p=a) + '\n'] + lines[at:]
                new = ''.join(new)
                try:
                    compile(new, 'x', 'exec')
                except SyntaxError:
                    continue
                res.append((n.lineno, f'{n.name}({a}) {kind}', new))
    return sorted(res, key=lambda r: r[0])


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout', ''


def diff(a, b):
    import difflib
    d = list(difflib.unified_diff(a.splitlines(), b.splitlines(), n=0,
                                  lineterm=''))[2:]
    return [x for x in d if not x.startswith('@@')][:12]


def worker(jobs, log, lock):
    work = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    os.chmod(work, 0o755)       # checks may run as another user
    try:
        repo, verif = os.path.join(work, 'repo'), os.path.join(work, 'verif')
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree('/verif', verif, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded',
                                                      'evidence', 'replays'))
        xml = os.path.join(work, 'junit.xml')
        while True:
            try:
                file, i, line, kind, src, new = jobs.get_nowait()
            except queue.Empty:
                return
            with open(os.path.join(repo, file), 'w') as f:
                f.write(new)
            try:
                res = judge(repo, verif, xml, file)
            finally:
                with open(os.path.join(repo, file), 'w') as f:
                    f.write(src)
            rec = {'file': file, 'n': i, 'line': line, 'kind': kind,
                   'res': res, 'diff': diff(src, new)}
            with lock:
                log.write(json.dumps(rec) + '\n')
                log.flush()
    finally:
        shutil.rmtree(work)


def judge(repo, verif, xml, file):
    import xml.etree.ElementTree as ET
    if os.path.exists(xml):
        os.remove(xml)
    rc, _ = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x',
                f'--rootdir={repo}', '-p', 'no:cacheprovider',
                '--timeout=60', '--tb=no', *DESELECT,
                '-o', 'junit_family=xunit2', f'--junitxml={xml}'],
               repo, seed.ENV, 120)
    if rc != 0:
        return 'tests'
    env = {**seed.ENV, 'VERIF_REPO': repo, 'VERIF_SEED': '1',
           'VERIF_TIER': 'quick'}
    odd = []
    for c, tier in [(c, t) for t in TIERS for c in CHECKS[file].split()]:
        rc, out = sh(['/opt/venv/bin/python', 'check.py', c, '--tier', tier],
                     verif, env, 600)
        if rc == 1 and f'VIOLATION property={c} ' in out:
            return c
        if rc != 0:
            odd.append(f'{c}:{rc}')
    return 'SURVIVED ' + ' '.join(odd)


DESELECT = []
TIERS = ['light']


def prepare():
    """tests that fail anyway are left out"""
    work = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    os.chmod(work, 0o755)       # checks may run as another user
    import xml.etree.ElementTree as ET
    try:
        repo = os.path.join(work, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        xml = os.path.join(work, 'junit.xml')
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q',
                        f'--rootdir={repo}', '-p', 'no:cacheprovider',
                        '--tb=no', '-o', 'junit_family=xunit2',
                        '--continue-on-collection-errors',
                        f'--junitxml={xml}'], cwd=repo, env=seed.ENV,
                       capture_output=True)
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q',
                            f'--rootdir={repo}', '-p', 'no:cacheprovider',
                            '--tb=no', '-rfE',
                            '--continue-on-collection-errors'], cwd=repo,
                           env=seed.ENV, capture_output=True, text=True)
        for x in r.stdout.splitlines():
            if x.startswith('FAILED '):
                DESELECT.extend(['--deselect', x.split()[1]])
            elif x.startswith('ERROR '):
                DESELECT.extend(['--ignore', x.split()[1]])
    finally:
        shutil.rmtree(work)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('files', nargs='*')
    p.add_argument('-o', default='/tmp/mutants.jsonl')
    p.add_argument('-j', type=int, default=7)
    p.add_argument('--list', action='store_true')
    p.add_argument('--tier', default='light')
    p.add_argument('--unusual', action='store_true')
    p.add_argument('--types', help='types of arguments seen, for --unusual')
    p.add_argument('--again', help='only what survived in this file')
    a = p.parse_args()
    TIERS[:] = a.tier.split(',')
    only = a.again and {(r['file'], r['n'])
                        for r in map(json.loads, open(a.again))
                        if r['res'].startswith('SURV')}
    jobs = queue.Queue()
    done = set()
    if os.path.exists(a.o):
        done = {(r['file'], r['n']) for r in map(json.loads, open(a.o))}
    total = 0
    for file in a.files or CHECKS:
        src = open(os.path.join('/repo', file)).read()
        ms = unusual(src, types(a.types) if a.types else None, file) \
            if a.unusual else mutants(src)
        total += len(ms)
        if a.list:
            print(len(ms), file)
        for i, (line, kind, new) in enumerate(ms):
            if (file, i) not in done and (only is None or (file, i) in only):
                jobs.put((file, i, line, kind, src, new))
    print(total, 'mutants,', jobs.qsize(), 'to do', flush=True)
    if a.list:
        return
    prepare()
    print('without', DESELECT, flush=True)
    lock = threading.Lock()
    with open(a.o, 'a') as log:
        ts = [threading.Thread(target=worker, args=(jobs, log, lock))
              for _ in range(a.j)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


if __name__ == '__main__':
    main()
