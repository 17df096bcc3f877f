"""Databases as a whole: C13 (crashes), C14 (creating, opening, closing), C15
(reading from several), C16 (the legacy container), C29 (clients)."""
import os
import shutil
import subprocess
import sys
import tempfile
import time
from datetime import timedelta
from itertools import combinations, product

import transaction as zodb_transaction
from persistent.mapping import PersistentMapping
from ZODB import DB
from ZODB.DemoStorage import DemoStorage
from ZODB.blob import Blob
from ZODB.FileStorage import FileStorage
from ZODB.FileStorage.FileStorage import FileStorageQuotaError
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import (ConflictError, POSKeyError, ReadOnlyError,
                               Unsupported)

from mc import maps
from mc.core import REPO, Driver, explore, cases, parallel, show
from mc.maps import MISSING
from mc.sched import explore_schedules

from citrine.client.container_client import ContainerClient
from citrine.connection.group_connection import GroupReadConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import (CitrineDuplicateIdError,
                                IncompatibleDatabaseError,
                                ObjectOverwriteError)
from citrine.persistence import DbContainer
from citrine.storage.collection import CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import GroupCapacityError
from citrine.storage.transaction import TransactionManager

REFUSED = (CollectionCapacityError, GroupCapacityError)
KEYS = ('a', 'b', 'c')
MEMORY = '/dev/shm' if os.path.isdir('/dev/shm') else None


class Scratch:
    """A directory of its own for the files of one case."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='verif-', dir=MEMORY)
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def look(conn, domain=KEYS):
    return tuple((k, conn.read(k, MISSING)) for k in domain
                 if not maps.same(conn.read(k, MISSING), MISSING))


def equal(a, b):
    return maps.same_list(list(a), list(b))


def contents(db, domain=KEYS):
    conn = db.open(transaction_manager=TransactionManager())
    try:
        conn.sync()             # clients learn of changes asynchronously
        return look(conn, domain)
    finally:
        conn.close()


# ------------------------------------------------------------------------- C13
def perform(conn, op):
    """One step of a program; -> whether it was acknowledged."""
    what = op[0]
    if what in ('create', 'update', 'delete'):
        try:
            getattr(conn, what)(*op[1:])
        except ObjectOverwriteError:
            pass
    elif what == 'block':
        with conn:
            for o in op[1]:
                getattr(conn, o[0])(*o[1:])
    elif what == 'broken block':
        try:
            with conn:
                for o in op[1]:
                    getattr(conn, o[0])(*o[1:])
                raise RuntimeError
        except RuntimeError:
            pass
    elif what == 'resize':
        conn.container.resize(op[1], op[2],
                              transaction_manager=conn.transaction_manager)
    elif what == 'condense':
        conn.container.condense(transaction_manager=conn.transaction_manager)
    elif what == 'manual':
        conn.autocommit = False
        for o in op[1]:
            getattr(conn, o[0])(*o[1:])
        conn.transaction_manager.commit()
        conn.autocommit = True


def after(model, op):
    """The states a program may be in during a step, the last one after it."""
    what = op[0]
    if what == 'create':
        if maps.get(model, op[1]) is MISSING:
            return maps.put(model, *op[1:])
    elif what == 'update':
        return maps.put(model, *op[1:])
    elif what == 'delete':
        return maps.drop(model, op[1])
    elif what in ('block', 'manual'):
        for o in op[1]:
            model = after(model, o)
    return model


def crash_case(case):
    """Run a program on a file, then cut the file at every byte."""
    program, keep_index = case
    with Scratch() as folder:
        path = os.path.join(folder, 'main.fs')
        ContainerDb.create(path, capacity=3).close()
        index = None
        db = ContainerDb(path)
        conn = db.open()
        model = ()
        marks = [(os.path.getsize(path), model)]
        for n, op in enumerate(program):
            perform(conn, op)
            model = after(model, op)
            marks.append((os.path.getsize(path), model))
            if not equal(look(conn), model):
                return f'after {op} reads {look(conn)}, expected {model}'
            if keep_index == n:     # the index a clean shutdown would leave
                conn.close()
                db.close()
                with open(path + '.index', 'rb') as f:
                    index = f.read()
                db = ContainerDb(path)
                conn = db.open()
        conn.close()
        db.close()
        with open(path, 'rb') as f:
            data = f.read()
        if len(data) != marks[-1][0]:
            return 'closing or reopening changed the stored data'
        torn = os.path.join(folder, 'torn.fs')
        floor = marks[0][0] if index is None else marks[keep_index + 1][0]
        points = 0
        for cut in range(floor, len(data) + 1):
            for name in os.listdir(folder):
                if name.startswith('torn'):
                    os.remove(os.path.join(folder, name))
            with open(torn, 'wb') as f:
                f.write(data[:cut])
            if index is not None:
                with open(torn + '.index', 'wb') as f:
                    f.write(index)
            done = [m for size, m in marks if size <= cut][-1]
            points += 1
            db = ContainerDb(torn)
            conn = db.open()
            got = look(conn)
            if not equal(got, done):
                return f'cut after {cut} of {len(data)} bytes reads {got}, ' \
                       f'acknowledged were {done}'
            if cut % 16 == 0 or cut in dict(marks):
                conn.update('z', cut)
                conn.close()
                db.close()
                db = ContainerDb(torn)
                conn = db.open()
                got = look(conn, KEYS + ('z',))
                if not equal(got, maps.put(done, 'z', cut)):
                    return f'cut after {cut}, then written: reads {got}'
            conn.close()
            db.close()
        return None, points, points


def c13(ctx):
    """Programs of one to three steps on a real database file: the file is cut
    after every single byte (every torn write), with no index file or the one
    of an earlier clean shutdown, and must hold exactly the acknowledged
    changes, and be writable again."""
    steps = [('create', 'a', 0), ('update', 'a', 'x'), ('delete', 'a'),
             ('update', 'b', None),
             ('block', (('update', 'a', 1), ('update', 'c', 2))),
             ('broken block', (('update', 'b', 1), ('delete', 'a'))),
             ('manual', (('update', 'a', 2), ('delete', 'b'))),
             ('resize', 9, 3), ('condense',)]
    first = (('create', 'a', 1),)
    space = [(first + (x,), None) for x in steps]
    space += [((x, y), None) for x in steps[3:5] for y in steps[2:]]
    space += [(first + (x, ('update', 'b', 5)), 0) for x in steps]
    if ctx.thorough:
        space += [(first + (x, y), None) for x in steps for y in steps]
        space += [(first + (x, y), i) for x in steps for y in steps
                  for i in (0, 1)]
        space += [(first + (x, y, z), None) for x in steps[4:] for y in
                  steps[4:] for z in steps[1:4]]

    def job(c, part, n):
        cases(c, 'crash', space[part::n], crash_case)
    n = 8 * (4 if ctx.thorough else 1)
    parallel(ctx, [(job, i, n) for i in range(n)])


# ------------------------------------------------------------------------- C14
class Files(Driver):
    """One database file: created, opened and closed in every way.

    Model: (contents or None before creation, strict, capacity or None for the
    default, open how or None)."""
    name = 'files'
    configs = ({},)
    openers = ('init', 'load', 'storage', 'load storage', 'read only')

    def build(self, cfg):
        folder = tempfile.mkdtemp(prefix='verif-', dir=MEMORY)
        return {'folder': folder, 'path': os.path.join(folder, 'main.fs'),
                'db': None, 'conn': None}

    def dispose(self, cfg, w):
        self.shut(w)
        shutil.rmtree(w['folder'], ignore_errors=True)

    @staticmethod
    def shut(w):
        if w['conn'] is not None:
            try:
                w['conn'].transaction_manager.abort()
                w['conn'].close()
            except Exception:
                pass
        if w['db'] is not None:
            w['db'].close()
        w['db'] = w['conn'] = None

    def initial(self, cfg):
        return None, None, None, None

    def ops(self, cfg, model):
        data, strict, cap, how = model
        if how is None:
            if data is None:
                yield 'open', 'init'
                yield 'open', 'load'
                for s in (True, False):
                    yield 'new', 3, s
                    yield 'create', 3, s
                yield 'create', 1, True
            else:
                for o in self.openers:
                    yield 'open', o
                # over what is there: anew, or refused; never mixed up
                yield 'create', 1, True
                yield 'new', 3, False
            return
        yield 'close',
        yield 'create', 'a', 0
        yield 'update', 'b', None
        yield 'delete', 'a'
        yield 'with', 'a', 'w'
        yield 'update', 'c', 5
        yield 'update', 'd', 6

    def apply(self, cfg, w, op):
        what, path = op[0], w['path']
        if what == 'open':
            how = op[1]
            before = None
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    before = f.read()
            if how == 'init':
                w['db'] = ContainerDb(path)
            elif how == 'load':
                w['db'] = ContainerDb.load(path)
            elif how == 'storage':
                w['db'] = ContainerDb(FileStorage(path))
            elif how == 'load storage':
                w['db'] = ContainerDb.load(FileStorage(path))
            else:
                w['db'] = ContainerDb(FileStorage(path, read_only=True))
            w['conn'] = w['db'].open()
            if before is not None:
                with open(path, 'rb') as f:
                    return f.read() == before
            return True
        if what == 'new':
            w['db'] = ContainerDb.new(path, capacity=op[1], strict=op[2])
            w['conn'] = w['db'].open()
            return True
        if what == 'create' and len(op) == 3 and isinstance(op[2], bool):
            storage = ContainerDb.create(path, capacity=op[1], strict=op[2])
            storage.close()
            return isinstance(storage, FileStorage)
        if what == 'close':
            w['conn'].close()
            w['conn'] = None
            w['db'].close()
            w['db'] = None
            return True
        if what == 'with':
            with w['db'] as conn:
                conn.update(op[1], op[2])
            w['conn'].sync()
            return conn.opened is None and conn is not w['conn']
        return getattr(w['conn'], what)(*op[1:])

    def step(self, cfg, model, op, out):
        data, strict, cap, how = model
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        what = op[0]
        making = what == 'new' or what == 'create' and \
            isinstance(op[2], bool)
        if what == 'open' or making or what == 'close':
            if kind == 'exc' and making and data is not None:
                return model, None
            if kind == 'exc':
                return model, bad
            if val is not True:
                return model, bad + ': the file was changed by opening it'
            if what == 'close':
                return (data, strict, cap, None), None
            if making:
                return ((), op[2], op[1],
                        'init' if what == 'new' else None), None
            if data is None:
                return ((), False, None, op[1]), None
            return (data, strict, cap, op[1]), None
        taken = maps.get(data, op[1])
        error = None
        if what == 'create' and taken is not MISSING:
            error = ObjectOverwriteError
        elif strict and what != 'delete' and taken is MISSING and \
                cap is not None and len(data) >= cap:
            error = REFUSED
        new = data if error else maps.drop(data, op[1]) \
            if what == 'delete' else maps.put(data, op[1], op[2])
        if how == 'read only' and new != data:
            error, new = ReadOnlyError, data
        if error:
            return model, None if kind == 'exc' and isinstance(
                val, error) else bad + f', expected {error}'
        if kind == 'exc' and not (how == 'read only'
                                  and isinstance(val, ReadOnlyError)):
            return model, bad
        if what == 'with' and kind == 'ok' and val is not True:
            return model, bad + ': the temporary connection is not closed'
        return (new, strict, cap, how), None

    def observe(self, cfg, w, model):
        data, strict, cap, how = model
        if how is None:
            return None
        domain = ('a', 'b', 'c', 'd')
        for who, got in (('a new connection', contents(w['db'], domain)),
                         ('the connection', look(w['conn'], domain))):
            if not equal(got, data):
                return f'{who} reads {got}, model {model!r}'
        con = w['conn'].container
        if con.strict is not strict:
            return f'strict is {con.strict}, model {model!r}'
        if cap is not None and con.capacity < cap:
            return f'capacity is {con.capacity}, model {model!r}'
        if con.size != len(data):
            return f'size is {con.size}, model {model!r}'
        return None


def foreign_case(case):
    """A database that is not a container database is refused, unharmed."""
    kind, how = case
    with Scratch() as folder:
        path = os.path.join(folder, 'other.fs')
        db = DB(path)
        conn = db.open()
        if kind == 'data':
            conn.root.other = {'x': 1}
        elif kind == 'none':
            conn.root.container = None
        zodb_transaction.commit()
        conn.close()
        db.close()
        with open(path, 'rb') as f:
            before = f.read()
        storage = FileStorage(path) if 'storage' in how else path
        db = None
        try:
            db = ContainerDb.load(storage) if 'load' in how \
                else ContainerDb(storage)
            conn = db.open()
            return 'a database without a container was opened'
        except IncompatibleDatabaseError:
            pass
        finally:
            if db is not None:
                db.close()
            if 'storage' in how:
                storage.close()
        with open(path, 'rb') as f:
            if f.read() != before:
                return 'the refused database was changed'
        return None


def memory_case(case):
    """Databases on storages without a file."""
    kind, how, ops = case
    storage = {'none': lambda: None, 'mapping': MappingStorage,
               'demo': lambda: DemoStorage(
                   base=MappingStorage(), changes=MappingStorage())}[kind]()
    db = ContainerDb(storage) if how == 'init' else ContainerDb.load(storage)
    try:
        conn = db.open()
        model = ()
        for op in ops:
            perform(conn, op)
            model = after(model, op)
            for who, got in (('a new connection', contents(db)),
                             ('the connection', look(conn))):
                if not equal(got, model):
                    return f'after {op}, {who} reads {got}, not {model}'
        conn.close()
        if storage is not None:
            again = ContainerDb(storage)
            if not equal(contents(again), model):
                return f'on the same storage again: {contents(again)}'
    finally:
        db.close()
    return None


# what ZODB itself does if an option is not given, and another value for each
OPTIONS = {
    'pool_size': (7, 3), 'pool_timeout': (2147483648, 17),
    'cache_size': (400, 55), 'cache_size_bytes': (0, 1 << 20),
    'historical_pool_size': (3, 2), 'historical_cache_size': (1000, 66),
    'historical_cache_size_bytes': (0, 1 << 21),
    'historical_timeout': (300, 44), 'database_name': ('unnamed', 'mine'),
    'xrefs': (True, False), 'large_record_size': (1 << 24, 1 << 22)}
WAYS = ('init path', 'load path', 'init storage', 'load storage',
        'init memory', 'new', 'again path', 'again storage')


def configured(db):
    return {'pool_size': db.getPoolSize(), 'pool_timeout': db.pool.getTimeout(),
            'cache_size': db.getCacheSize(),
            'cache_size_bytes': db.getCacheSizeBytes(),
            'historical_pool_size': db.getHistoricalPoolSize(),
            'historical_cache_size': db.getHistoricalCacheSize(),
            'historical_cache_size_bytes': db.getHistoricalCacheSizeBytes(),
            'historical_timeout': db.getHistoricalTimeout(),
            'database_name': db.database_name, 'xrefs': db.xrefs,
            'large_record_size': db.large_record_size}


def option_case(case):
    """Each option given has its effect, whichever way a database is made."""
    way, given = case
    kwargs = {k: OPTIONS[k][1] for k in given}
    expected = {k: v[k in given] for k, v in OPTIONS.items()}
    name = expected['database_name']
    others = {}
    with Scratch() as folder:
        path = os.path.join(folder, 'x.fs')
        if way.startswith('again'):
            db = ContainerDb(path)
            with db as conn:
                conn.create('a', 1)
            db.close()
        storage = db = None
        try:
            if 'storage' in way:
                storage = FileStorage(path)
            target = None if 'memory' in way else \
                path if storage is None else storage
            fn = ContainerDb.load if way.startswith('load') else \
                ContainerDb.new if way == 'new' else ContainerDb
            db = fn(target, databases=others, **kwargs)
            got = configured(db)
            wrong = {k: (got[k], v) for k, v in expected.items()
                     if got[k] != v or type(got[k]) is not type(v)}
            if wrong:
                return f'options (found, expected): {wrong}'
            if list(others) != [name] or others[name] is not db:
                return f'the given databases are now {others}'
            with db as conn:
                if way.startswith('again') and conn.read('a') != 1:
                    return 'the contents are lost'
                conn.update('b', 2)
            if contents(db)[-1:] != (('b', 2),):
                return f'after an update: {contents(db)}'
        finally:
            if db is not None:
                db.close()
    return None


FILE_WAYS = ('init', 'new', 'create')


def file_option_case(case):
    """Options of the file storage have their effect."""
    way, option = case
    packed = []
    with Scratch() as folder:
        path = os.path.join(folder, 'x.fs')

        def packer(storage, *args):
            packed.append(storage)
        kwargs = {'quota': {'quota': 30000}, 'packer': {'packer': packer},
                  'pack_keep_old': {'pack_keep_old': False},
                  'pack_gc': {'pack_gc': False},
                  'blob_dir': {'blob_dir': os.path.join(folder, 'blobs')},
                  'create': {'create': True},
                  'strict': {'strict': True, 'capacity': 1}}.get(option, {})
        if option == 'create':
            db = ContainerDb(path)
            with db as conn:
                conn.create('old', 1)
            db.close()
        storage = db = None
        try:
            if way == 'init':
                db = ContainerDb(path, **kwargs)
            elif way == 'new':
                db = ContainerDb.new(path, **kwargs)
            else:
                storage = ContainerDb.create(path, **kwargs)
                db = ContainerDb(storage)
            with db as conn:
                conn.create('a', 1)
            try:
                with db as conn:
                    conn.create('b', 'x' * 50000)
                with db as conn:
                    # the limit is checked against what was there before
                    conn.create('c', 'y')
                full = False
            except FileStorageQuotaError:
                full = True
            except REFUSED:
                full = 'strict'
            want = {'quota': True, 'strict': 'strict'}.get(option, False)
            if full != want:
                return f'storing a large object is refused: {full}, not {want}'
            with db as conn:
                if conn.read('old') is not None:
                    return 'create=True kept the old contents'
            if option in ('strict', 'quota'):
                return None
            # an object nothing refers to any more
            with db as conn:
                extra = PersistentMapping()
                conn.add(extra)
                oid = extra._p_oid
                conn.transaction_manager.commit()
            db.pack()
            try:
                db.storage.load(oid)
                kept = True
            except POSKeyError:
                kept = False
            want = option in ('pack_gc', 'packer')
            if kept != want:
                return f'packing keeps unreachable objects: {kept}, not {want}'
            if bool(packed) != (option == 'packer'):
                return f'the packer was called {len(packed)} times'
            want = option not in ('pack_keep_old', 'packer')
            if os.path.exists(path + '.old') != want:
                return f'an .old file exists: {not want}'
            try:
                with db as conn:
                    blob = Blob()
                    with blob.open('w') as f:
                        f.write(b'xyz')
                    conn.update('c', blob)
                stored = True
            except Unsupported:
                stored = False
            if stored != (option == 'blob_dir'):
                return f'a blob was stored: {stored}'
            if stored:
                with db as conn, conn.read('c').open() as f:
                    if f.read() != b'xyz':
                        return 'the blob has other contents'
        finally:
            if db is not None:
                db.close()
    return None


def with_case(case):
    """Blocks of one database in several threads, nested or not."""
    programs = case

    def make():
        db = ContainerDb(MappingStorage())
        problems, used, live = [], [], []

        def enter(depth, who, pause):
            with db as conn:
                if any(c is conn for c in live):
                    problems.append(f'{who} got the connection of another '
                                    f'open block')
                live.append(conn)
                used.append(conn)
                pause()
                conn.update(f'{who}{depth}', depth)
                pause()
                if depth > 1:
                    enter(depth - 1, who, pause)
                    pause()
                if conn.opened is None:
                    problems.append(f'the connection of {who} was closed '
                                    f'inside its block')
                got = conn.read(f'{who}{depth}')
                if got != depth:
                    problems.append(f'{who} reads {got!r}, wrote {depth}')
                live.remove(conn)
            if conn.opened is not None and not any(c is conn for c in live):
                problems.append(f'the connection of {who} is still open '
                                f'after its block')

        def actor(i, depth):
            return lambda pause: enter(depth, f't{i}', pause)

        def check():
            if problems:
                return problems[0]
            want = tuple((f't{i}{d}', d) for i, n in enumerate(programs)
                         for d in range(1, n + 1))
            got = contents(db, tuple(k for k, _ in want))
            return None if equal(got, want) else f'stored {got}, not {want}'
        return ([actor(i, n) for i, n in enumerate(programs)], check, db.close)
    return explore_schedules(make)


def c14(ctx):
    """Every history of creating, opening (five ways), changing and closing a
    database file; foreign databases; storages in memory; and all schedules of
    nested ``with`` blocks of one database in up to three threads."""
    t = ctx.thorough

    def hist(c, i, n):
        # the first operation of the histories splits the work
        class Part(Files):
            def ops(self, cfg, model):
                all_ops = list(super().ops(cfg, model))
                return all_ops if model[0] is not None else all_ops[i::n]
        explore(c, Part(), depth=7 if t else 5, suffix=2 if t else 1)

    def rest(c):
        cases(c, 'foreign', product(('data', 'none', 'empty'),
                                    ('init', 'load', 'storage',
                                     'load storage')), foreign_case)
        ops = [('create', 'a', 0), ('update', 'b', 1), ('delete', 'a'),
               ('broken block', (('update', 'b', 2),))]
        cases(c, 'memory', product(('none', 'mapping', 'demo'),
                                   ('init', 'load'),
                                   product(ops, repeat=3)), memory_case)
        given = [()] + [(o,) for o in OPTIONS] + [tuple(OPTIONS)]
        if t:
            given += list(combinations(OPTIONS, 2))
        cases(c, 'options', product(WAYS, given), option_case)
        cases(c, 'file options', [x for x in product(
            FILE_WAYS, ('none', 'quota', 'packer', 'pack_keep_old', 'pack_gc',
                        'blob_dir', 'create', 'strict'))
            if x != ('init', 'strict')], file_option_case)

    def blocks(c, programs):
        cases(c, 'with-blocks', programs, with_case)
    jobs = [(hist, i, 7) for i in range(7)] + [(rest,)]
    jobs += [(blocks, [p]) for p in ((1, 1), (1, 2), (2, 2), (3,), (3, 1))]
    if t:
        jobs += [(blocks, [p]) for p in ((1, 1, 1), (3, 2))]
    from mc.checks import wide          # it needs this module
    jobs += wide.jobs('file', t, 8, ('every', 'values', 'lots'))
    parallel(ctx, jobs)


# ------------------------------------------------------------------------- C15
def group_case(case):
    """Several databases holding (or not) an id, read as one."""
    held, timeout, own_tm = case
    dbs = []
    try:
        for i, value in enumerate(held):
            db = ContainerDb(MappingStorage(), database_name=f'db{i}')
            dbs.append(db)
            with db as conn:
                conn.create('other', f'o{i}')
                if value is not MISSING:
                    conn.create('id', value)
        tm = TransactionManager() if own_tm == 'shared' else None
        args = {'db0': {'transaction_manager': TransactionManager()}} \
            if own_tm == 'own' and held else {}
        group = GroupReadConnection(dbs, transaction_manager=tm, **args)
        if len(group.connections) != len(held):
            return f'{len(group.connections)} connections'
        for db, conn in zip(dbs, group.connections):
            if conn.db() is not db:
                return 'connections are not in the order of the databases'
            if own_tm == 'shared' and conn.transaction_manager is not tm:
                return 'the shared transaction manager is not used'
        if args and group.connections[0].transaction_manager is not \
                args['db0']['transaction_manager']:
            return 'the arguments of a connection are not used'
        there = [(c, v) for c, v in zip(group.connections, held)
                 if v is not MISSING]
        limit = timedelta(seconds=30) if timeout else None
        for key, found in (('id', there), ('nowhere', [])):
            try:
                got = group.read(key, timeout=limit)
                if len(found) > 1:
                    return f'read gave {got!r}, several databases have the id'
                want = found[0][1] if found else None
                if not maps.same(got, want):
                    return f'read gave {got!r}, stored is {want!r}'
            except CitrineDuplicateIdError:
                if len(found) < 2:
                    return 'duplicates reported, there are none'
            got = group.read(key, timeout=limit, multiple=True)
            if not found:
                if got:
                    return f'reading all gave {got!r}, there are none'
            elif set(got) != {c for c, _ in found} or not all(
                    maps.same(got[c], v) for c, v in found):
                return f'reading all gave {got!r}, stored {found!r}'
        # changes made meanwhile are read as well, once synchronized
        if held:
            with dbs[-1] as conn:
                conn.update('late', 'L')
            for c in group.connections:
                c.sync()
            if group.read('late', timeout=limit) != 'L':
                return 'a later change is not read'
        for c in group.connections:
            c.close()
        return None
    finally:
        for db in dbs:
            db.close()


def c15(ctx):
    """Every assignment of absence or a value (false-like ones too) to up to
    three (four) databases, with and without a timeout, own and shared
    transaction managers; single and multiple reads."""
    values = (MISSING, 0, '', 'v')
    top = 4 if ctx.thorough else 3
    space = [(held, timeout, tm) for n in range(top + 1)
             for held in product(values, repeat=n)
             for timeout in (False, True) for tm in ('none', 'shared', 'own')]

    def job(c, part):
        cases(c, 'group-read', space[part::8], group_case)
    parallel(ctx, [(job, i) for i in range(8)])


# ------------------------------------------------------------------------- C16
class Legacy(Driver):
    """The legacy container against one map; expanding keeps everything."""
    name = 'legacy'
    configs = ({'n': 1}, {'n': 3})
    domain = ('a', 'b', 'https://example.org/1', 7, ('t', 1))

    def build(self, cfg):
        con = DbContainer()
        if cfg['n'] > 1:
            con.expand_size(cfg['n'])
        return con

    def initial(self, cfg):
        return cfg['n'], ()

    def ops(self, cfg, model):
        for k in self.domain[:3]:
            yield 'write', k, 1
            yield 'write', k, None
            yield 'delete', k
        yield 'write', 'a', 0
        yield 'write', 'b', ''
        yield 'write', 7, 'x'
        yield 'write', ('t', 1), []
        yield 'delete', 7
        yield 'delete', ('t', 1)
        for n in (model[0], model[0] + 1, model[0] + 4, 1):
            if n < 9:
                yield 'expand_size', n

    def apply(self, cfg, impl, op):
        return getattr(impl, op[0])(*op[1:])

    def step(self, cfg, model, op, out):
        n, data = model
        data = dict(data)
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        if op[0] == 'expand_size':
            if op[1] <= n:
                return model, None if kind == 'exc' and \
                    isinstance(val, ValueError) else bad
            return (op[1], model[1]), None if kind == 'ok' else bad
        if op[0] == 'delete':
            if op[1] not in data:
                return model, None if kind == 'exc' and \
                    isinstance(val, KeyError) else bad
            del data[op[1]]
        else:
            data[op[1]] = op[2]
        if kind == 'exc':
            return model, bad
        return (n, tuple(sorted(((k, () if v == [] else v)
                                 for k, v in data.items()), key=repr))), None

    def observe(self, cfg, impl, model):
        n, data = model
        data = {k: [] if v == () else v for k, v in data}
        if impl.containers_size != n:
            return f'{impl.containers_size} containers, model {n}'
        if impl.size != len(data):
            return f'size {impl.size}, model {data!r}'
        for k in self.domain:
            if impl.has(k) is not (k in data):
                return f'has({k!r}) is {impl.has(k)!r}, model {data!r}'
            if not maps.same(impl.read(k), data.get(k)):
                return f'read({k!r}) gave {impl.read(k)!r}, model {data!r}'
        return None


PROGRAM = """
import os, sys
sys.path.insert(0, sys.argv[1])
from ZODB.DB import DB
from ZODB.FileStorage import FileStorage
from citrine.persistence import DbContainer
import transaction
path, n, mode = sys.argv[2], int(sys.argv[3]), sys.argv[4]
ids = ['', 'a', 7, -1, 2 ** 70, 1.5, None, (), ('t', 1), ('t', ('u', 'v')),
       b'bytes', frozenset(['x'])] + [('t', i) for i in range(2, 9)]
ids += ['x' * i + str(i) for i in range(1, 400, 13)]
db = DB(FileStorage(path))
conn = db.open()
if mode == 'write':
    conn.root.container = con = DbContainer()
    if n > 1:
        con.expand_size(n)
    for i, k in enumerate(ids):
        con.write(k, i)
else:
    con = conn.root.container
    if mode == 'grow':
        con.expand_size(n + 3)
    for i, k in enumerate(ids):
        if con.read(k) != i or not con.has(k):
            print(f'{k!r}, written by another process, is not found')
            break
    else:
        for k in ids:
            con.delete(k)
        print(f'{con.size} left' if con.size else '', end='')
transaction.commit()
conn.close()
db.close()
"""


def process_case(case):
    """What one process writes another finds, whatever its hash seed."""
    n, modes, seeds = case
    with Scratch() as folder:
        for mode, seed in zip(modes, seeds):
            r = subprocess.run(
                [sys.executable, '-c', PROGRAM, REPO,
                 os.path.join(folder, 'x.fs'), str(n), mode],
                capture_output=True, text=True, cwd=folder,
                env={**os.environ, 'PYTHONHASHSEED': seed})
            if r.returncode or r.stdout:
                return f'{n} parts: {r.stdout}{r.stderr[-600:]}'
    return None


def c16(ctx):
    """Every history of writes, deletes and expansions to depth 4 (5); ids of
    many kinds written in one process and read in another."""
    def job(c, cfg):
        explore(c, Legacy(), depth=5 if ctx.thorough else 4,
                suffix=1 if ctx.thorough else 0, configs=[cfg])

    def processes(c):
        cases(c, 'legacy-processes', (
            (n, ('write', mode), seeds)
            for n in ((1, 2, 3, 5, 8) if ctx.thorough else (1, 7))
            for mode in ('read', 'grow')
            for seeds in (('1', '2'),)), process_case)
    from mc.checks import wide          # it needs this module
    parallel(ctx, [(job, cfg) for cfg in Legacy.configs] + [(processes,)]
             + wide.jobs('old', ctx.thorough))


# ------------------------------------------------------------------------- C29
def client_case(case):
    """Clients of one server: the first connects to a storage that may be new,
    the second sees what it did, a local database does after the server."""
    import ZEO
    existing, strict, program = case
    with Scratch() as folder:
        path = os.path.join(folder, 'main.fs')
        model = ()
        if existing:
            db = ContainerDb.new(path, capacity=5)
            with db as conn:
                conn.create('a', 'old')
            model = (('a', 'old'),)
            db.close()
        addr, stop = ZEO.server(path, threaded=True)
        clients = []
        try:
            for who in (0, 1):
                clients.append(ContainerClient.connect(
                    addr, None, strict=strict, server_sync=True,
                    wait_timeout=20))
                want = strict and not existing
                with clients[-1] as conn:
                    if conn.strict is not want:
                        return f'strict is {conn.strict}, should be {want}'
                    if not equal(look(conn), model):
                        return f'client {who} finds {look(conn)}'
            for who, op in program:
                with clients[who] as conn:
                    conn.sync()
                    perform(conn, op)
                model = after(model, op)
                for i, client in enumerate(clients):
                    if not equal(contents(client), model):
                        return f'after {op} by {who}, client {i} reads ' \
                               f'{contents(client)}, not {model}'
            try:
                ContainerClient.create('x')
                return 'a client database was created'
            except NotImplementedError:
                pass
        finally:
            for c in clients:
                c.close()
            stop()
        db = ContainerDb(path)
        try:
            if not equal(contents(db), model):
                return f'then stored: {contents(db)}, not {model}'
        finally:
            db.close()
    return None


def storages_case(case):
    """Clients of several storages of one server, one of them read-only."""
    import ZEO
    program = case
    with Scratch() as folder:
        names = ('1', 'x')
        conf = ''.join(f'<filestorage {n}>\n path {folder}/{n}.fs\n'
                       f'</filestorage>\n' for n in names)
        addr, stop = ZEO.server(storage_conf=conf, threaded=True)
        model = {n: () for n in names}
        clients = []
        try:
            for storage, strict, ro in (('x', True, 0), ('1', False, 0),
                                        ('x', False, 0), ('x', False, 1)):
                clients.append((storage, ro, ContainerClient.connect(
                    addr, None, storage_type=storage, strict=strict,
                    read_only=ro, server_sync=True, wait_timeout=20,
                    database_name=f'db{len(clients)}')))
                if clients[-1][2].database_name != f'db{len(clients) - 1}':
                    return f'it is called {clients[-1][2].database_name}'
            for who, op in program:
                storage, ro, client = clients[who]
                error = None
                with client as conn:
                    conn.sync()
                    try:
                        perform(conn, op)
                    except ReadOnlyError as e:
                        error = e
                new = after(model[storage], op)
                if ro and new != model[storage] and not error:
                    return f'{op} of a read-only client was accepted'
                if error and not ro:
                    return f'{op} raised {error!r}'
                model[storage] = model[storage] if ro else new
                for i, (name, _, client) in enumerate(clients):
                    with client as conn:
                        if conn.strict is not (name == 'x'):
                            return f'strict of {name} is {conn.strict}'
                    if not equal(contents(client), model[name]):
                        return f'after {op} by {who}, client {i} of {name} ' \
                               f'reads {contents(client)}, model {model}'
        finally:
            for _, _, c in clients:
                c.close()
            stop()
        for n in names:
            db = ContainerDb(os.path.join(folder, n + '.fs'))
            try:
                if not equal(contents(db), model[n]):
                    return f'then stored: {contents(db)}, not {model}'
            finally:
                db.close()
    return None


def client_option_case(given):
    """Each option given to a client has its effect."""
    import ZEO
    with Scratch() as folder:
        addr, stop = ZEO.server(os.path.join(folder, 'x.fs'), threaded=True)
        clients = []
        try:
            for new in (True, False):
                others = {}
                kwargs = {k: OPTIONS[k][1] for k in given if k in OPTIONS}
                expected = {k: v[k in given] for k, v in OPTIONS.items()}
                if 'storage_path' in given:
                    path = os.path.join(folder, f'cache{new}')
                else:
                    path = None
                if 'cache' in given:
                    kwargs['cache'] = os.path.join(folder, f'given{new}')
                if 'storage_cache_size' in given:
                    kwargs['storage_cache_size'] = 5 << 20
                if 'name' in given:
                    kwargs['name'] = 'a name'
                blobs = os.path.join(folder, f'blobs{new}')
                if 'blob_dir' in given:
                    kwargs['blob_dir'] = blobs
                client = ContainerClient.connect(
                    addr, path, databases=others, wait_timeout=20,
                    server_sync=True, **kwargs)
                clients.append(client)
                got = configured(client)
                wrong = {k: (got[k], v) for k, v in expected.items()
                         if got[k] != v or type(got[k]) is not type(v)}
                if wrong:
                    return f'options (found, expected): {wrong}'
                if list(others) != [expected['database_name']] or \
                        list(others.values()) != [client]:
                    return f'the given databases are now {others}'
                if ('name' in given) != ('a name' in
                                         client.storage.getName()):
                    return f'the name is {client.storage.getName()!r}'
                for kind, file in (('storage_path', f'cache{new}'),
                                   ('cache', f'given{new}')):
                    there = os.path.exists(os.path.join(folder, file))
                    if there != (kind in given) and \
                            not (kind == 'cache' and 'storage_path' in given):
                        return f'a cache {file} exists: {there}'
                if os.path.exists(blobs) != ('blob_dir' in given):
                    return f'the blob directory exists: {blobs}'
                with client as conn:
                    conn.update('a', new)
            for client in clients:
                if not equal(contents(client), (('a', False),)):
                    return f'the clients read {contents(client)}'
        finally:
            for c in clients:
                c.close()
            stop()
    return None


class Asked(Exception):
    """Instead of connecting."""


# what the storage of a client can be told, and by which name
STORAGE_OPTIONS = {
    'storage_type': ('storage', 'main'), 'storage_cache_size':
    ('cache_size', 5 << 20), 'storage_path': ('cache', '/nowhere/cache'),
    'cache': ('cache', '/nowhere/other')}
STORAGE_OPTIONS.update((k, (k, v)) for k, v in dict(
    name='a name', wait_timeout=7, read_only=True, read_only_fallback=True,
    blob_dir='/nowhere/blobs', shared_blob_dir=True, blob_cache_size=12345,
    blob_cache_size_check=17, client_label='label', ssl=object(),
    ssl_server_hostname='x.example', client='client', var='/nowhere/var',
    wait=False, server_sync=True).items())


def storage_option_case(given):
    """The storage is asked for with exactly the options given."""
    import inspect
    from unittest import mock
    from ZEO.ClientStorage import ClientStorage
    real = ClientStorage.__init__
    calls = []

    def init(*args, **kwargs):
        bound = inspect.signature(real).bind(*args, **kwargs)
        bound.apply_defaults()
        calls.append(bound.arguments)
        raise Asked

    kwargs = {k: STORAGE_OPTIONS[k][1] for k in given}
    addr = ('x.example', 1234)
    with mock.patch.object(ClientStorage, '__init__', init):
        try:
            ContainerClient.connect(
                addr, kwargs.pop('storage_path', None), **kwargs)
        except Asked:
            pass
    if len(calls) != 1:
        return f'{len(calls)} storages were created'
    expected = {p.name: p.default for p in
                inspect.signature(real).parameters.values()}
    expected.update(STORAGE_OPTIONS[k] for k in given)
    expected['addr'] = addr
    for k in {'addr'} | {x for x, _ in STORAGE_OPTIONS.values()}:
        if calls[0][k] != expected[k]:
            return f'with {given}, {k} is {calls[0][k]!r}'
    return None


def merges(a, b):
    """Every way to merge two sequences, each kept in order."""
    if not a or not b:
        yield tuple(a) + tuple(b)
        return
    for rest in merges(a[1:], b):
        yield (a[0],) + rest
    for rest in merges(a, b[1:]):
        yield (b[0],) + rest


def overlap_case(case):
    """Blocks of two clients that overlap in every possible way."""
    import ZEO
    bodies = case
    n = 0
    with Scratch() as folder:
        addr, stop = ZEO.server(os.path.join(folder, 'main.fs'),
                                threaded=True)
        clients = []
        try:
            clients = [ContainerClient.connect(
                addr, None, server_sync=True, wait_timeout=20)
                for _ in range(3)]
            conns = [c.open(transaction_manager=TransactionManager())
                     for c in clients]
            steps = [[(i, 'enter'), *((i, op) for op in body), (i, 'exit')]
                     for i, body in enumerate(bodies)]
            for order in merges(*steps):
                n += 1
                err = overlap(order, conns, n)
                if err:
                    return f'{order}: {err}', n, n
        finally:
            for c in clients:
                c.close()
            stop()
    return None, n, n


def overlap(order, conns, n):
    ids = {k: f'{k}{n}' for k in KEYS}
    conns[2].update(ids['a'], 'first')
    for c in conns:
        c.sync()
    state, commits = {'a': 'first'}, {}
    view, wrote, began = {}, {}, {}
    for i, op in order:
        conn = conns[i]
        if op == 'enter':
            conn.__enter__()
            view[i], wrote[i] = dict(state), {}
            began[i] = dict(commits)
        elif op == 'exit':
            try:
                conn.__exit__(None, None, None)
            except ConflictError as e:
                if began[i] == commits:
                    return f'client {i}: {e!r}, nothing was committed'
                continue
            for k, v in wrote[i].items():
                if began[i].get(k) != commits.get(k):
                    return f'client {i} overwrote a later change of {k}'
                commits[k] = commits.get(k, 0) + 1
                state.pop(k, None)
                if v is not None:
                    state[k] = v
        else:
            what, k = op
            old = view[i].get(k)
            try:
                got = getattr(conn, what)(
                    ids[k], *(() if what == 'delete' else (f'{i}',)))
            except ObjectOverwriteError:
                if what != 'create' or old is None:
                    return f'client {i}: {op} refused, view {view[i]}'
            else:
                if what == 'create' and old is not None or \
                        what == 'update' and got != old or \
                        what == 'delete' and got != ((old,) if old else ()):
                    return f'client {i}: {op} gave {got}, view {view[i]}'
                new = None if what == 'delete' else f'{i}'
                if old is not None or new is not None:
                    wrote[i][k] = view[i][k] = new
        for j in (0, 1):
            if j in view and any((j, 'exit') == s for s in order[
                    order.index((i, op)) + 1:]):
                got = {k: conns[j].read(ids[k]) for k in KEYS}
                if any(got[k] != view[j].get(k) for k in KEYS):
                    return f'in its block client {j} reads {got}, expected ' \
                           f'{view[j]}'
    conns[2].sync()
    got = {k: conns[2].read(ids[k]) for k in KEYS}
    if any(got[k] != state.get(k) for k in KEYS):
        return f'then there is {got}, committed was {state}'
    return None


def outage_case(case):
    """The server goes away and comes back; the client tries meanwhile, and
    what it is told to be done is what there is afterwards."""
    import ZEO
    from ZEO.Exceptions import ClientDisconnected
    sync, kind, before, during, later = case

    def attempt(conn, model, op):
        """The state afterwards, and whether the server was missed."""
        try:
            perform(conn, op)
        except ClientDisconnected:
            return model, True
        return after(model, op), False

    with Scratch() as folder:
        path = os.path.join(folder, 'main.fs')
        addr, stop = ZEO.server(path, threaded=True)
        client = None
        try:
            limit = time.time() + 60
            while client is None:
                try:                # which may take a while if much is going on
                    client = ContainerClient.connect(
                        addr, None, server_sync=sync, wait_timeout=0.5,
                        min_disconnect_poll=0.1, max_disconnect_poll=0.2)
                except ClientDisconnected:
                    if time.time() > limit:
                        raise
            conn = client.open(transaction_manager=None if kind == 'thread'
                               else TransactionManager())
            model, missed = attempt(conn, (), before)
            if missed:
                return None         # a very slow machine
            if during and during[0] == 'inside':
                try:
                    with conn:
                        for op in during[1:]:
                            perform(conn, op)
                        stop()
                    return 'a block was committed without a server'
                except ClientDisconnected:
                    pass
            else:
                stop()
                for op in during:
                    model, missed = attempt(conn, model, op)
                    if not missed and op[0] != 'broken block':
                        return f'{op} was acknowledged without a server'
            if not conn.autocommit:
                return 'autocommit is off'
            for _ in range(40):
                try:
                    _, stop = ZEO.server(path, threaded=True, port=addr[1])
                    break
                except OSError:
                    time.sleep(0.25)        # the port is still taken
            else:
                return None
            for op in later:
                limit = time.time() + 40
                while True:
                    model, missed = attempt(conn, model, op)
                    if not missed:
                        break
                    if time.time() > limit:
                        return 'the client does not come back'
                    time.sleep(0.05)
            conn.sync()
            if not equal(look(conn), model):
                return f'the client reads {look(conn)}, not {model}'
            conn.close()
        finally:
            if client is not None:
                client.close()
            stop()
        db = ContainerDb(path)
        try:
            if not equal(contents(db), model):
                return f'then stored: {contents(db)}, not {model}'
        finally:
            db.close()
    return None


def c29(ctx):
    """Two clients of a real server on the loopback network, on a new and an
    existing storage: every program of one to three (four) steps, each by
    either client; both views and the server's file afterwards are compared.
    Four clients of two storages of a server, one of them read-only; blocks
    of two clients that overlap in every possible way; and a server that goes
    away and comes back while a client makes changes."""
    ops = [('create', 'a', 0), ('update', 'b', 1), ('delete', 'a'),
           ('block', (('update', 'a', 3), ('update', 'b', 4))),
           ('broken block', (('update', 'a', 9),))]
    space = []
    for existing, strict in product((False, True), repeat=2):
        for n in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
            for who in product((0, 1), repeat=n):
                if who[0]:
                    continue
                for o in product(ops, repeat=n):
                    if (strict and n > 1) or (existing and n > 3):
                        continue
                    space.append((existing, strict, tuple(zip(who, o))))

    def job(c, part):
        cases(c, 'client', space[part::8], client_case)
    steps = [(w, o) for w in range(4)
             for o in (('update', 'a', f'{w}'), ('delete', 'a'),
                       ('block', (('update', 'a', 3), ('update', 'b', w))))]
    several = [p for n in ((1, 2, 3) if ctx.thorough else (1, 2))
               for p in product(steps, repeat=n)]
    changes = [('update', 'a'), ('delete', 'a'), ('create', 'b'),
               ('update', 'c')]
    bodies = [(x,) for x in changes] + [(x, y) for x in changes
                                        for y in changes if x != y]
    pairs = [(x, y) for x in bodies for y in bodies
             if ctx.thorough or len(x) == 1]

    names = [*OPTIONS, 'storage_path', 'cache', 'name', 'blob_dir',
             'storage_cache_size']
    given = [()] + [(o,) for o in names] + [tuple(OPTIONS), tuple(names)]
    if ctx.thorough:
        given += list(combinations(names, 2))

    asked = [o for n in ((0, 1, 2, 3) if ctx.thorough else (0, 1, 2))
             for o in combinations(STORAGE_OPTIONS, n)
             if not {'cache', 'storage_path'} <= set(o)]

    a, b = ('update', 'a', 1), ('create', 'b', 2)
    during = [(), (b,), (b, b), (('delete', 'a'),), (ops[3],), (ops[4],),
              ('inside', b), ('inside', b, ('delete', 'a')), (ops[3], b)]
    away = [(sync, kind, a, d, later) for sync in (True, False)
            for kind in ('thread', 'single') for d in during
            for later in (((('create', 'c', 3),),)
                          if not ctx.thorough else
                          ((('create', 'c', 3),), (ops[3], ('delete', 'b')),
                           (('delete', 'a'), ('create', 'a', 5))))]

    def job2(c, part):
        cases(c, 'outages', away[part::8], outage_case)
        cases(c, 'storages', several[part::8], storages_case)
        cases(c, 'overlapping blocks', pairs[part::8], overlap_case)
        cases(c, 'client options', given[part::8], client_option_case)
        cases(c, 'storage options', asked[part::8], storage_option_case)
    parallel(ctx, [(job, i) for i in range(8)] + [(job2, i) for i in range(8)])


CHECKS = {'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C29': c29}
DRIVERS = {d.name: d for d in (Files, Legacy)}
CASES = {'crash': crash_case, 'foreign': foreign_case, 'memory': memory_case,
         'with-blocks': with_case, 'options': option_case,
         'file options': file_option_case, 'group-read': group_case,
         'client': client_case, 'storages': storages_case,
         'client options': client_option_case,
         'storage options': storage_option_case, 'outages': outage_case,
         'overlapping blocks': overlap_case, 'legacy-processes': process_case}
