"""Database modules: C17 (their directories), C18 (their registry).

The code under test deletes files. It runs in forked children that give up
their privileges, work on a scratch directory of their own, and refuse (by an
audit hook) every change of a path outside of it."""
import os
import shutil
import sys
import tempfile
from itertools import product

from persistent.mapping import PersistentMapping
from ZODB import DB
from ZODB.MappingStorage import MappingStorage

from mc import maps
from mc.core import Driver, cases, explore, parallel, show
from mc.maps import MISSING

from citrine.cluster_tools.clusterdb.container import ClusterRegistryContainer
from citrine.cluster_tools.dbmodule import dbmodule
from citrine.cluster_tools.dbmodule.dbmodule import DbModule
from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
from citrine.persistence import DbContainer

MEMORY = '/dev/shm' if os.path.isdir('/dev/shm') else None
NOBODY = 65534
CHANGES = ('os.remove', 'os.rmdir', 'os.rename', 'os.mkdir', 'os.truncate',
           'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'shutil.rmtree',
           'shutil.move', 'shutil.copyfile', 'shutil.copytree')


class Escape(BaseException):
    """A path outside the scratch directory was to be changed."""


class Box:
    """Confines this process to a scratch directory."""
    path = None
    escaped = None
    DIR_FD = {'os.remove': 1, 'os.rmdir': 1, 'os.mkdir': 2, 'os.rename': 2,
              'os.link': 2, 'os.symlink': 2, 'os.chmod': 2, 'os.chown': 3}

    @classmethod
    def enter(cls):
        cls.path = tempfile.mkdtemp(prefix='verif-', dir=MEMORY)
        os.chmod(cls.path, 0o700)
        try:
            os.chown(cls.path, NOBODY, NOBODY)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass                    # the hook below holds all the same
        sys.addaudithook(cls.hook)

    @classmethod
    def hook(cls, event, args):
        folder = None
        if event in CHANGES:
            paths = [a for a in args[:2] if isinstance(a, (str, bytes))]
            fds = [a for a in args[cls.DIR_FD.get(event, 9):]
                   if type(a) is int and a >= 0]
            if fds:                 # relative to an open directory
                folder = os.readlink(f'/proc/self/fd/{fds[0]}')
        elif event == 'open':
            name, mode, flags = args
            if not isinstance(name, (str, bytes)) or not (
                    flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                return
            paths = [name]
        elif event in ('subprocess.Popen', 'os.system', 'os.exec'):
            raise Escape(f'{event} {args}')
        else:
            return
        for p in paths:
            p = os.fsdecode(p)
            p = os.path.abspath(os.path.join(folder, p) if folder else p)
            if not (p + '/').startswith(cls.path + '/') and p != '/dev/null':
                if '__pycache__' in p and event in ('open', 'os.mkdir'):
                    raise PermissionError(p)        # Python goes on without
                cls.escaped = f'{event} {p}'
                raise Escape(cls.escaped)

    @classmethod
    def clear(cls, compiled=False):
        # whether Python leaves the compiled form of what it imports
        sys.dont_write_bytecode = not compiled
        for name in os.listdir(cls.path):
            p = os.path.join(cls.path, name)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)


def boxed(ctx, jobs):
    """Run jobs in parallel, each in a box of its own."""
    def job(c, fn, args):
        Box.enter()
        try:
            fn(c, *args)
        finally:
            Box.clear()
    before = set(os.listdir(MEMORY or tempfile.gettempdir()))
    try:
        parallel(ctx, [(job, fn, args) for fn, *args in jobs])
    finally:                        # the boxes themselves, empty by now
        root = MEMORY or tempfile.gettempdir()
        for name in set(os.listdir(root)) - before:
            if name.startswith('verif-'):
                try:
                    os.rmdir(os.path.join(root, name))
                except OSError:
                    pass


# ------------------------------------------------------------------------- C17
def tree(root):
    """What is in a directory: the kinds of files by relative path."""
    found = set()
    for folder, dirs, files in os.walk(root):
        for name in dirs:
            found.add(os.path.relpath(os.path.join(folder, name), root) + '/')
        for name in files:
            found.add(os.path.relpath(os.path.join(folder, name), root))
    return found


def init_of(root, name):
    """The flags of a generated init file."""
    with open(os.path.join(root, name, '__init__.py')) as f:
        text = f.read()
    flags = {}
    for line in text.splitlines():
        for flag in ('DB_MODULE', 'DISCOVERABLE'):
            if line.startswith(flag):
                flags[flag] = 'True' in line
    return flags


class Directories(Driver):
    """Model: for each directory its foreign files and, if it is a module, its
    discoverability and the value stored in its database (None: no database).
    """
    name = 'module-directories'
    configs = ({'compiled': False}, {'compiled': True})
    names = ('m', 'm2')
    foreign = {'m': ('m2.txt', '__init__.txt', 'm_keep', 'sub/'),
               'm2': ('m', 'x.m2', '.keep')}

    def build(self, cfg):
        if Box.path is None:
            Box.enter()
        Box.clear(cfg['compiled'])
        os.mkdir(os.path.join(Box.path, 'root'))
        os.mkdir(os.path.join(Box.path, 'root', 'data'))
        for p in ('root/data/m', 'root/m.txt', 'outside.txt'):
            with open(os.path.join(Box.path, p), 'w') as f:
                f.write('keep')
        return os.path.join(Box.path, 'root')

    def initial(self, cfg):
        return tuple((n, None) for n in self.names)

    def ops(self, cfg, model):
        for n, state in model:
            for over in (False, True):
                for disc in (True, False):
                    yield 'create', n, disc, over
            if state is None:
                continue
            foreign, module = state
            for f in self.foreign[n]:
                if f not in foreign:
                    yield 'put', n, f
            for form in ('', '/', '//', 'relative'):
                yield 'delete', n, True, False, form
            yield 'delete', n, False, False, ''
            yield 'delete', n, True, True, ''
            yield 'delete', n, False, True, ''
            if module:
                yield 'use', n, 1
        yield 'check',

    def apply(self, cfg, root, op):
        what = op[0]
        if what == 'create':
            return dbmodule.create_dbmodule(root, op[1], discoverable=op[2],
                                            overwrite=op[3])
        path = os.path.join(root, op[1]) if len(op) > 1 else root
        if what == 'delete':
            form = op[4]
            if form == 'relative':
                old = os.getcwd()
                os.chdir(root)
                try:
                    return dbmodule.delete_dbmodule(op[1], op[2], op[3])
                finally:
                    os.chdir(old)
            return dbmodule.delete_dbmodule(path + form, remove_empty=op[2],
                                            remove_all=op[3])
        if what == 'put':
            full = os.path.join(path, op[2])
            if op[2].endswith('/'):
                os.mkdir(full)
                with open(os.path.join(full, op[1]), 'w') as f:
                    f.write('keep')
            else:
                with open(full, 'w') as f:
                    f.write('keep')
            return None
        if what == 'use':
            db = dbmodule.import_db(path)
            with db as conn:
                old = conn.update('value', op[2])
            name = db.database_name
            db.close()
            return name, old
        if what == 'check':
            return None
        raise AssertionError(op)

    def step(self, cfg, model, op, out):
        d = dict(model)
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        what = op[0]
        if what == 'check':
            return model, None
        n = op[1]
        state = d[n]
        if what == 'create':
            if state is not None and not op[3]:
                ok = kind == 'exc' and isinstance(val, OSError)
                return model, None if ok else bad
            if kind == 'exc' or not isinstance(val, str):
                return model, bad
            if os.path.basename(os.path.normpath(val)) != n:
                return model, bad
            d[n] = (state[0] if state else (), (op[2], None))
        elif what == 'delete':
            foreign, module = state
            # only a directory with something of the module can be cleaned up
            if kind == 'exc':
                return model, bad
            if op[3]:
                d[n] = None
            else:
                if n in foreign:
                    foreign = tuple(f for f in foreign if f != n)
                d[n] = None if op[2] and not foreign else (foreign, None)
        elif what == 'put':
            d[n] = (tuple(sorted(state[0] + (op[2],))), state[1])
        elif what == 'use':
            if kind == 'exc':
                return model, bad
            if val != (n, state[1][1]):
                return model, bad + f', stored was {state[1][1]!r}'
            d[n] = (state[0], (state[1][0], op[2]))
        return tuple(d.items()), None

    def observe(self, cfg, root, model):
        if Box.escaped:
            return f'reached outside: {Box.escaped}'
        want = {'data/', 'data/m', 'm.txt'}
        modules = set()
        for n, state in model:
            if state is None:
                continue
            want.add(n + '/')
            foreign, module = state
            for f in foreign:
                want.add(f'{n}/{f}')
                if f.endswith('/'):
                    want.add(f'{n}/{f}{n}')
            if module:
                modules.add(n)
                want.add(f'{n}/__init__.py')
                flags = init_of(root, n)
                if flags != {'DB_MODULE': True, 'DISCOVERABLE': module[0]}:
                    return f'module {n} is {flags}, model {model!r}'
        got = tree(root)
        stored = {p for p in got for n, s in model if s and s[1] and s[1][1]
                  is not None and (p == f'{n}/{n}'
                                   or p.startswith(f'{n}/{n}.'))}
        stored |= {p for p in got for n, s in model if s and s[1] and (
            p == f'{n}/__pycache__/' or
            p.startswith(f'{n}/__pycache__/__init__.'))}
        if got - stored != want - stored:
            return f'too many: {sorted(got - stored - want)}, missing: ' \
                   f'{sorted(want - got)}, model {model!r}'
        for n, s in model:
            if s and s[1] and s[1][1] is not None and f'{n}/{n}' not in got:
                return f'the database of {n} is gone: {sorted(got)}'
        if not os.path.exists(os.path.join(Box.path, 'outside.txt')):
            return 'a file outside the directory is gone'
        found = [os.path.basename(p) for p in dbmodule.find_dbmodules(root)]
        if sorted(found) != sorted(modules):
            return f'found modules {found}, model {model!r}'
        for n in (*self.names, 'data', 'nowhere'):
            is_one = bool(dbmodule.is_path_dbmodule(os.path.join(root, n)))
            if is_one is not (n in modules):
                return f'{n} is a module: {is_one}, model {model!r}'
        return None


class Twins(Driver):
    """Modules of the same names in different directories, also open at the
    same time. Model: for each place, None or the value stored."""
    name = 'modules-of-same-name'
    configs = ({'compiled': False}, {'compiled': True})
    places = ('x/m', 'y/m', 'y/m2')

    def build(self, cfg):
        if Box.path is None:
            Box.enter()
        Box.clear(cfg['compiled'])
        for d in 'xy':
            os.mkdir(os.path.join(Box.path, d))
        return {}

    def dispose(self, cfg, w):
        for m in w.values():
            m.db.close()

    def initial(self, cfg):
        return tuple((p, None) for p in self.places)

    def ops(self, cfg, model):
        for p, s in model:
            if s is None:
                yield 'create', p
                continue
            value, is_open = s
            if is_open:
                yield 'use', p, 1 if value != 1 else 2
                yield 'close', p
            else:
                yield 'open', p
                yield 'delete', p

    def apply(self, cfg, w, op):
        what, p = op[:2]
        path = os.path.join(Box.path, p)
        if what == 'create':
            w[p] = DbModule.create(*os.path.split(path))
            return w[p].name, w[p].path
        if what == 'open':
            w[p] = DbModule(path)
            return w[p].name, w[p].path
        if what == 'use':
            conn = w[p].open()
            try:
                return conn.update('value', op[2])
            finally:
                conn.close()
        if what == 'close':
            w.pop(p).db.close()
            return None
        return dbmodule.delete_dbmodule(path)

    def step(self, cfg, model, op, out):
        d = dict(model)
        kind, val = out
        what, p = op[:2]
        bad = f'{op} on {model!r} {show(out)}'
        if kind == 'exc':
            return model, bad
        if what in ('create', 'open'):
            name, path = val
            if name != os.path.basename(p) or \
                    os.path.realpath(path) != os.path.realpath(
                        os.path.join(Box.path, p)):
                return model, bad
            d[p] = (d[p][0] if d[p] else None, True)
        elif what == 'use':
            if val != d[p][0]:
                return model, bad + f', stored was {d[p][0]!r}'
            d[p] = (op[2], True)
        elif what == 'close':
            d[p] = (d[p][0], False)
        else:
            d[p] = None
        return tuple(d.items()), None

    def observe(self, cfg, w, model):
        if Box.escaped:
            return f'reached outside: {Box.escaped}'
        for p, s in model:
            path = os.path.join(Box.path, p)
            if bool(dbmodule.is_path_dbmodule(path)) is not (s is not None):
                return f'{p} is (not) a module, model {model!r}'
            if os.path.exists(path) is not (s is not None):
                return f'the directory {p}, model {model!r}'
            if s and s[1]:
                conn = w[p].open()
                value, size = conn.read('value'), w[p].size
                conn.close()
                if value != s[0] or size != (s[0] is not None):
                    return f'{p} has {value!r} ({size}), model {model!r}'
        return None


class Grouped(Driver):
    """A group of modules: creating, destroying, using and discovering."""
    name = 'module-group'
    configs = ({'compiled': False}, {'compiled': True})
    names = ('m', 'm.n')

    def build(self, cfg):
        if Box.path is None:
            Box.enter()
        Box.clear(cfg['compiled'])
        os.mkdir(os.path.join(Box.path, 'plain'))
        return {'group': DbGroup(Box.path)}

    def dispose(self, cfg, w):
        for m in w['group'].modules.values():
            m.db.close()

    def initial(self, cfg):
        return ()

    def ops(self, cfg, model):
        for n in self.names:
            yield 'create', n, False
            if maps.get(model, n) is MISSING:
                yield 'create', n, True
            else:
                yield 'destroy', n
                for v in (1, 2):
                    yield 'use', n, v
        yield 'rediscover',
        yield 'again',

    def apply(self, cfg, w, op):
        g = w['group']
        what = op[0]
        if what == 'create':
            return g.create_dbmodule(op[1], overwrite=op[2]).name
        if what == 'destroy':
            module = g.modules[op[1]]
            module.db.close()
            g.destroy_dbmodule(op[1])
            return None
        if what == 'use':
            conn = g.modules[op[1]].open()
            old = conn.update('value', op[2])
            conn.close()
            return old
        if what in ('rediscover', 'again'):
            for m in g.modules.values():
                m.db.close()
            if what == 'again':
                w['group'] = DbGroup(Box.path)
            else:
                g.modules = DbGroup.discover(Box.path)
        return None

    def step(self, cfg, model, op, out):
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        what = op[0]
        if what == 'create' and maps.get(model, op[1]) is not MISSING:
            ok = kind == 'exc' and isinstance(val, OSError)
            return model, None if ok else bad
        if kind == 'exc':
            return model, bad
        if what == 'create':
            return maps.put(model, op[1], None), \
                None if val == op[1] else bad
        if what == 'destroy':
            return maps.drop(model, op[1]), None
        if what == 'use':
            if val != maps.get(model, op[1]):
                return model, bad
            return maps.put(model, op[1], op[2]), None
        return model, None

    def observe(self, cfg, w, model):
        if Box.escaped:
            return f'reached outside: {Box.escaped}'
        g = w['group']
        want = maps.keys(model)
        if sorted(g.modules) != want or sorted(g.databases) != want:
            return f'modules {sorted(g.modules)}, databases ' \
                   f'{sorted(g.databases)}, model {model!r}'
        dirs = sorted(n for n in os.listdir(Box.path)
                      if os.path.isdir(os.path.join(Box.path, n)))
        if dirs != sorted(want + ['plain']):
            return f'directories {dirs}, model {model!r}'
        for n, v in model:
            m = g.modules[n]
            if m.name != n or m.db is not g.databases[n] or m() is not m.db:
                return f'module {n} is named {m.name}'
            if os.path.realpath(m.path) != os.path.join(
                    os.path.realpath(Box.path), n):
                return f'module {n} is at {m.path}'
            conn = m.open()
            got = conn.read('value')
            conn.close()
            if got != v:
                return f'module {n} stores {got!r}, model {model!r}'
            size = 0 if v is None else 1
            entry = dbmodule.DbModuleRegistry.from_dbmodule(m)
            if m.size != size or (entry.name, entry.module_path,
                                  entry.size) != (n, m.path, size):
                return f'module {n} has size {m.size}, its entry ' \
                       f'{vars(entry)}, model {model!r}'
            for entry.size in (-1, 7, None):
                entry.update_from_dbmodule(m)
                if (entry.name, entry.module_path,
                        entry.size) != (n, m.path, size):
                    return f'the entry of {n} is {vars(entry)}, {model!r}'
            try:
                m.path = Box.path
                return f'the path of {n} was changed'
            except AttributeError:
                pass
        total = sum(v is not None for _, v in model)
        given = dict(list(g.modules.items())[:1])
        alone = DbGroup(Box.path, discovery=False)
        part = DbGroup(Box.path, discovery=False, modules=given)
        if g.size != total or alone.modules or alone.size or \
                alone.databases or part.modules != given or \
                part.size != sum(m.size for m in given.values()):
            return f'sizes {g.size}, {alone.size}, {part.size}, the ones ' \
                   f'not discovered {sorted(alone.modules)}, ' \
                   f'{sorted(part.modules)}, model {model!r}'
        known = dict(part.databases)
        part.databases = {'other': None}
        if part.databases != {'other': None}:
            return f'databases set give {part.databases}'
        del part.databases
        if part.databases != known:
            return f'databases unset give {part.databases}'
        for path in ('absent', os.path.join('plain', 'absent')):
            try:
                dbmodule.DbModule(os.path.join(Box.path, path))
                return f'a module for {path}, which does not exist'
            except FileNotFoundError:
                pass
        try:
            dbmodule.DbModule(os.path.join(Box.path, 'plain'))
            return 'a module for a directory that is none'
        except FileNotFoundError:
            pass
        return None


NAMES = ('a', 'A', 'b', 'a.b', 'a.py', 'a.index', '.a', 'a ', ' ', 'a b', 'a-b',
         'a_b', 'aa', '0', "a'b", 'a"b', 'a\\b', 'a\\', 'a\nb', '{a}', '%s',
         'é', 'e\u0301', '😀', '__init__', 'db', 'None', '~a', '$a',
         '*', '-a', '#a', 'x' * 200, 'class', '__pycache__', 'a' * 36)


def name_case(case):
    """Modules of two names next to each other: each has its own database, and
    one stays when the other is deleted."""
    if Box.path is None:
        Box.enter()
    Box.clear()
    group = DbGroup(Box.path)
    held, names = {}, [n for n in case if n is not None]

    def check(when, g):
        found = {os.path.basename(p): p
                 for p in dbmodule.find_dbmodules(Box.path)}
        if sorted(g.modules) != sorted(held) or sorted(found) != sorted(held):
            return f'{case!r}, {when}: modules {sorted(g.modules)}, found ' \
                   f'{sorted(found)}'
        if sorted(os.listdir(Box.path)) != sorted(held):
            return f'{case!r}, {when}: {sorted(os.listdir(Box.path))}'
        for n, v in held.items():
            m = g.modules[n]
            conn = m.open()
            got = conn.read('value')
            conn.close()
            if (m.name, m.db.database_name, got) != (n, n, v):
                return f'{case!r}, {when}: {m.name!r}, database ' \
                       f'{m.db.database_name!r}, has {got!r}, not {v!r}'
        return None
    try:
        for i, n in enumerate(names):
            group.create_dbmodule(n)
            held[n] = None
            conn = group.modules[n].open()
            conn.create('value', i)
            conn.close()
            held[n] = i
            err = check('created', group)
            if err:
                return err
        for m in group.modules.values():
            m.db.close()
        group = DbGroup(Box.path)
        err = check('opened again', group)
        if err:
            return err
        group.modules[names[0]].db.close()
        group.destroy_dbmodule(names[0])
        del held[names[0]]
        return check('destroyed', group) or (
            f'reached outside: {Box.escaped}' if Box.escaped else None)
    finally:
        for m in group.modules.values():
            m.db.close()


FOREIGN = ('m/', 'm.d/', 'mm', 'xm', 'm-x', 'm2', 'M', '.m', '__init__', 'm2.fs',
           '__init__.py.bak', '__main__.py', 'sub/__init__.py', 'sub/m',
           'sub/m.index', '__pycache__/x', '__pycache__/m',
           '__pycache__/x.cpython-312.pyc', '__pycache__/__init__.txt',
           '__pycache__/sub/__init__.cpython-312.pyc')


def foreign_case(case):
    """A module among files that are not its own, deleted or made again: these
    and nothing else remain, with their contents."""
    foreign, compiled, used, how = case
    if Box.path is None:
        Box.enter()
    Box.clear(compiled)
    if 'm/' in foreign and (used or how == 'again'):
        return None                 # in the way of the database's own file
    path = os.path.join(Box.path, 'm')
    dbmodule.create_dbmodule(Box.path, 'm')
    if used:
        db = dbmodule.import_db(path)
        with db as conn:
            conn.create('value', 1)
        db.close()
        if compiled and not os.listdir(os.path.join(path, '__pycache__')):
            return 'nothing was compiled'
    want = set()
    for f in foreign:
        full = os.path.join(path, f)
        os.makedirs(full if f.endswith('/') else os.path.dirname(full),
                    exist_ok=True)
        if not f.endswith('/'):
            with open(full, 'w') as w:
                w.write(f)
            want.add(f)
        folder = f if f.endswith('/') else os.path.dirname(f) + '/'
        while folder.strip('/'):
            want.add(folder)
            folder = os.path.dirname(folder.rstrip('/')) + '/'
    if how == 'again':
        dbmodule.create_dbmodule(Box.path, 'm', overwrite=True)
        want.add('__init__.py')
    else:
        dbmodule.delete_dbmodule(path, remove_empty=how == 'empty',
                                 remove_all=how == 'all')
    if how == 'all' or how == 'empty' and not want:
        left = os.listdir(Box.path)
        return f'{case!r}: {left} remains' if left else None
    if not os.path.isdir(path) or tree(path) != want:
        return f'{case!r}: {sorted(tree(path))} remains'
    for f in want - {'__init__.py'}:
        if not f.endswith('/'):
            with open(os.path.join(path, f)) as r:
                if r.read() != f:
                    return f'{case!r}: {f} was changed'
    if how == 'again':
        db = dbmodule.import_db(path)
        with db as conn:
            got = conn.read('value')
        db.close()
        if got is not None:
            return f'{case!r}: the new module holds {got!r}'
    return f'reached outside: {Box.escaped}' if Box.escaped else None


NOT_GIVEN = 'not given'


def create_case(case):
    """Which arguments are given: those that are count, a name is chosen if
    none is given, and nothing is replaced unless that was asked for."""
    where, name, disc, over, before, by = case
    if Box.path is None:
        Box.enter()
    Box.clear()
    os.mkdir(os.path.join(Box.path, 'sub'))
    root = Box.path if where == NOT_GIVEN else os.path.join(Box.path, 'sub')
    real = {NOT_GIVEN: NOT_GIVEN, 'relative': 'sub'}.get(where, root)
    kwargs = {k: v for k, v in (('path', real), ('name', name),
                                ('discoverable', disc), ('overwrite', over))
              if v != NOT_GIVEN}
    named = name not in (NOT_GIVEN, None, '')
    if before:
        old = dbmodule.create_dbmodule(root, name, discoverable=False)
        db = dbmodule.import_db(old)
        with db as conn:
            conn.create('value', 1)
        db.close()
    cwd = os.getcwd()
    os.chdir(Box.path)
    try:
        made = []
        for _ in range(1 if named else 3):
            try:
                if by == 'group':
                    group = DbGroup(kwargs.pop('path', '.'), discovery=False)
                    m = group.create_dbmodule(**kwargs)
                    m.db.close()
                    kwargs['path'] = real if where != NOT_GIVEN else '.'
                    path = os.path.abspath(m.path)
                else:
                    path = os.path.abspath(dbmodule.create_dbmodule(**kwargs))
            except Exception as e:
                if before and over is not True and isinstance(e, OSError):
                    path = None
                    break
                return f'{case!r} raised {e!r}'
            made.append(os.path.basename(path))
            if os.path.dirname(path) != root:
                return f'{case!r} made {path}'
        else:
            if before and over is not True:
                return f'{case!r} replaced what was there'
    finally:
        os.chdir(cwd)
    want = sorted({'sub'} | set(made)) if root == Box.path else ['sub']
    if before and root == Box.path:
        want = sorted({'sub', name})
    if sorted(os.listdir(Box.path)) != want or root != Box.path and sorted(
            os.listdir(root)) != sorted(set(made) | ({name} if before
                                                     else set())):
        return f'{case!r}: {sorted(tree(Box.path))}'
    if named and made not in ([], [name]) or not named and (
            len(set(made)) != 3 or not all(made)):
        return f'{case!r} made {made}'
    shown = [os.path.basename(p) for p in dbmodule.find_dbmodules(root)]
    value = 1 if not made else None
    for n in made or [name]:
        path = os.path.join(root, n)
        want = {'DB_MODULE': True, 'DISCOVERABLE': bool(made) and
                disc is not False}
        if by == 'group' and made:
            want['DISCOVERABLE'] = True
        if init_of(root, n) != want or not dbmodule.is_path_dbmodule(path):
            return f'{case!r}: {init_of(root, n)}'
        db = dbmodule.import_db(path)
        with db as conn:
            got = conn.read('value')
        db.close()
        if db.database_name != n or got != value:
            return f'{case!r}: {db.database_name!r} holds {got!r}'
    return None


def c17(ctx):
    """Every history of creating (also over existing ones), using, deleting
    (every option and form of the path) and discovering modules with similar
    names, among files that are not theirs: after each step the whole directory
    tree is compared. The same through a group of modules, and with modules of
    the same name in several directories."""
    t = ctx.thorough

    def hist(c, cls, depth, i, n, comp):
        first = [True]

        class Part(cls):
            def ops(self, cfg, model):
                every = list(super().ops(cfg, model))
                if model == self.initial(cfg):
                    return [o for k, o in enumerate(every)
                            if k % n == i or o[0] == 'check']
                return every
        explore(c, Part(), depth=depth, suffix=1,
                configs=[{'compiled': comp}])
    jobs = []
    for comp in (False, True):
        jobs += [(hist, Directories, (5 if t else 4) - comp, i, 8, comp)
                 for i in range(8)]
        jobs += [(hist, Grouped, (6 if t else 4) - comp, i, 5, comp)
                 for i in range(5)]
        jobs += [(hist, Twins, (8 if t else 6) - comp, i, 3, comp)
                 for i in range(3)]
    pairs = [(a, None) for a in NAMES] + [
        (a, b) for a in NAMES for b in NAMES[::1 if t else 3] if a != b]

    def named(c, i):
        cases(c, 'names', pairs[i::8], name_case)
    sets = [()] + [(f,) for f in FOREIGN] + [
        (a, b) for i, a in enumerate(FOREIGN) for b in FOREIGN[i + 1:]
        if t or a[0] != b[0]] + [FOREIGN]
    mixed = [(fs, *rest) for fs in sets for rest in product(
        (False, True), (False, True), ('empty', 'keep', 'all', 'again'))
        if t or len(fs) < 2 or rest[2] in ('empty', 'again') and rest[1]]
    calls = [c for c in product(
        (NOT_GIVEN, 'absolute', 'relative'), (NOT_GIVEN, None, '', 'a'),
        (NOT_GIVEN, False, True), (NOT_GIVEN, False, True), (False, True),
        ('function', 'group'))
        if not (c[4] and c[1] != 'a') and not (
            c[5] == 'group' and c[2] != NOT_GIVEN)]

    def among(c, i):
        cases(c, 'files of others', mixed[i::6], foreign_case)

    def called(c, i):
        cases(c, 'ways to create', calls[i::2], create_case)
    boxed(ctx, jobs + [(named, i) for i in range(8)] +
          [(among, i) for i in range(6)] + [(called, i) for i in range(2)])


# ------------------------------------------------------------------------- C18
class Entry:
    def __init__(self, name, version=0):
        self.name, self.path = name, f'/somewhere/{version}/{name}'


class Registry(Driver):
    """A registry (or legacy container) stored in a database: every committed
    step is found by a new connection, every aborted one by none."""
    name = 'registry'
    configs = tuple({'kind': k, 'given': g}
                    for k in ('registry', 'legacy')
                    for g in ('nothing', 'dict', 'mapping', 'filled'))
    names = ('m', 'n', 'o')

    def build(self, cfg):
        db = DB(MappingStorage())
        conn = db.open()
        given = {'nothing': None, 'dict': {}, 'mapping': PersistentMapping(),
                 'filled': {}}[cfg['given']]
        if cfg['kind'] == 'registry':
            if cfg['given'] == 'filled':
                given = {'m': Entry('m')}
            con = ClusterRegistryContainer(given) if given is not None \
                else ClusterRegistryContainer()
        else:
            if cfg['given'] == 'mapping':
                given = PersistentMapping({0: {}, 1: {}})
            elif cfg['given'] == 'dict':
                given = {0: {}}
            elif cfg['given'] == 'filled':
                given = {0: {'m': 'm0'}}
            con = DbContainer(given)
        conn.root.container = con
        conn.transaction_manager.commit()
        return {'db': db, 'conn': conn}

    def dispose(self, cfg, w):
        w['conn'].transaction_manager.abort()
        w['conn'].close()
        w['db'].close()

    def initial(self, cfg):
        start = (('m', 0),) if cfg['given'] == 'filled' else ()
        return start, start

    def ops(self, cfg, model):
        for n in self.names[:2]:
            yield 'write', n, 1
            yield 'write', n, 2
            yield 'delete', n
        yield 'expand',
        yield 'commit',
        yield 'abort',

    def apply(self, cfg, w, op):
        con = w['conn'].root.container
        tm = w['conn'].transaction_manager
        if op[0] == 'write':
            return con.write(op[1], Entry(*op[1:])
                             if cfg['kind'] == 'registry' else
                             f'{op[1]}{op[2]}')
        if op[0] == 'delete':
            return con.delete(op[1])
        if op[0] == 'expand':
            if cfg['kind'] == 'registry':
                return con.expand_size(5)
            return con.expand_size(con.containers_size + 2)
        return tm.commit() if op[0] == 'commit' else tm.abort()

    def step(self, cfg, model, op, out):
        durable, view = model
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        if op[0] == 'delete' and op[1] not in dict(view):
            ok = kind == 'exc' and isinstance(val, KeyError)
            return model, None if ok else bad
        if kind == 'exc':
            return model, bad
        if op[0] == 'write':
            view = tuple(sorted({**dict(view), op[1]: op[2]}.items()))
        elif op[0] == 'delete':
            view = tuple(x for x in view if x[0] != op[1])
        elif op[0] == 'commit':
            durable = view
        elif op[0] == 'abort':
            view = durable
        return (durable, view), None

    def observe(self, cfg, w, model):
        durable, view = model
        err = self.compare(cfg, w['conn'].root.container, view)
        if err:
            return f'the connection: {err}, model {model!r}'
        other = w['db'].open(TransactionManager())
        err = self.compare(cfg, other.root.container, durable)
        other.close()
        return err and f'a new connection: {err}, model {model!r}'

    def compare(self, cfg, con, view):
        names = dict(view)
        for n in self.names:
            if con.has(n) is not (n in names):
                return f'has({n!r}) is {con.has(n)!r}'
            got = con.read(n)
            if n not in names:
                if got is not None:
                    return f'read({n!r}) gave {got!r}'
            elif cfg['kind'] == 'legacy':
                if got != f'{n}{names[n]}':
                    return f'read({n!r}) gave {got!r}'
            elif (got.name, got.path) != (n, f'/somewhere/{names[n]}/{n}'):
                return f'read({n!r}) gave {vars(got)!r}'
        return None


def c18(ctx):
    """Registries of modules and legacy containers, created from nothing, a
    dict or a persistent mapping, stored in a database: every history of
    writes, deletes, expansions, commits and aborts, seen from the connection
    and from a new one."""
    def job(c, cfg):
        explore(c, Registry(), depth=6 if ctx.thorough else 4,
                suffix=2 if ctx.thorough else 1, configs=[cfg])
    from mc.checks import wide
    parallel(ctx, [(job, cfg) for cfg in Registry.configs] +
             wide.jobs('registry', ctx.thorough, 4, ('pairs', 'every')))


from transaction import TransactionManager  # noqa: E402

CHECKS = {'C17': c17, 'C18': c18}
DRIVERS = {d.name: d for d in (Directories, Grouped, Twins, Registry)}
CASES = {'names': name_case}
