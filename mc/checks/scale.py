"""Every size up to a bound: what works for a few objects, groups, databases,
documents, classes or levels has to work for more of them. Run after the check
of each property; the smallest failing size is what is reported."""
import json
import os
from datetime import timedelta
from itertools import combinations

from mc.core import cases, outcome, parallel, show

MISSING = object()
KINDS = {}       # property: [(name, sizes, thorough sizes, further, function)]


def sized(pid, name, sizes, more, what=(None,)):
    """Register a function of (size, kind) for every size and kind."""
    def add(fn):
        KINDS.setdefault(pid, []).append((name, sizes, more, what, fn))
        CASES[name] = lambda case: fn(*case)
        return fn
    return add


CASES = {}


def upto(n, *more):
    return [*range(1, n + 1), *more]


def run(ctx, boxed=None):
    """All sizes of a property, in parallel."""
    def job(c, name, fn, space):
        cases(c, name, space, lambda case: fn(*case))
    jobs, n = [], 4
    for name, sizes, more, what, fn in KINDS.get(ctx.pid, ()):
        space = [(s, w) for s in (more if ctx.thorough else sizes)
                 for w in what]
        jobs += [(job, name, fn, space[i::n]) for i in range(n) if space[i:]]
    if jobs:
        (boxed or parallel)(ctx, jobs)


def pairs(n, full):
    """All pairs up to a size, neighbours and those with an end beyond."""
    return [(i, j) for i, j in combinations(range(n), 2)
            if n <= full or i == 0 or j == n - 1 or j == i + 1]


# --------------------------------------------------------------------- storage
@sized('C05', 'many groups', upto(17, 32, 33, 64, 65), upto(40, 65, 101, 129),
       ('first', 'middle', 'last'))
def groups(n, which):
    """n groups, an id in any one or two of them."""
    from citrine.storage.container import Container
    from citrine.storage.group import Group
    primary = {'first': 0, 'middle': n // 2, 'last': n - 1}[which]
    for where in [(), *combinations(range(n), 1), *pairs(n, 9),
                  tuple(range(n))]:
        made = [Group.new(3, 9) for _ in range(n)]
        for i in where:
            made[i].insert('id', ('v', i))
        for i in range(n):
            made[i].insert(f'own{i}', i)
        con = Container(made[primary], tuple(made))
        bad = f'{n} groups, in {where}: '
        if con.read('id', 'no') != (('v', where[0]) if where else 'no'):
            return bad + f'read gives {con.read("id", "no")!r}'
        if con.has('id') != len(where) or con.size != n + len(where):
            return bad + f'has {con.has("id")}, size {con.size}'
        for i in range(n):
            if con.read(f'own{i}') != i or con.has(f'own{i}') != 1:
                return bad + f'that of group {i} is {con.read(f"own{i}")}'
        gone = con.delete('id') if where else []
        if list(gone) != [('v', i) for i in where] or con.has('id') or \
                con.size != n:
            return bad + f'deleting gives {gone}'
        con.write('id', 'new')
        if [g.size for g in made] != [1 + (i == primary) for i in range(n)] \
                or con.read('id') != 'new':
            return bad + f'writing gives {[g.size for g in made]}'
    return None


@sized('C07', 'many objects moved', upto(24, 33, 50, 65),
       upto(70, 101, 129), ('condense', 'condense, keep', 'resize',
                            'resize, keep', 'resize only'))
def moved(n, op):
    """A crash after any commit of moving n objects."""
    from mc.checks import container as c
    w = c.World({'groups': ((), ()), 'primary': 0})
    try:
        con, ids = w.conn.container, [f'k{i}' for i in range(n)]
        with w.tm:
            for i, k in enumerate(ids):
                con.groups[i % 2].insert(k, i)
        w.before = [t.tid for t in w.storage.iterator()]
        w.act({'condense': ('condense', True),
               'condense, keep': ('condense', False),
               'resize': ('resize', n + 3, 5000, True, True),
               'resize, keep': ('resize', n + 3, 5000, True, False),
               'resize only': ('resize', n + 3, 7, False, True)}[op])
        last = None
        for k, tid in enumerate(w.tids()):
            conn = w.db.open(transaction_manager=c.TransactionManager(),
                             at=tid)
            got = [conn.read(k, 'gone') for k in ids]
            now = {(g._p_oid, key) for g in conn.container.groups
                   for key in g.keys()}
            conn.close()
            if got != list(range(n)):
                return f'{op} of {n}: after commit {k + 1}, {got} are read'
            if last is not None and len({key for _, key in now ^ last}) > 1:
                return f'{op} of {n}: commit {k + 1} moved several'
            last = now
        return None, n, n
    finally:
        w.close()


@sized('C08', 'many collections', upto(13), upto(40), (1, 7))
def figures(n, size):
    """A group of n collections, filled one object after the other."""
    from citrine.storage.group import Group
    group = Group.new(custom={i: size + i % 3 for i in range(n)})
    held = 0
    for i in range(2 * n * size):
        group.insert(f'k{i}', i)
        held += 1
        cols = group.collections
        sizes = [c.size for c in cols]
        used = [100 * c.size / c.max_size for c in cols]
        top = sum(c.max_size for c in cols)
        want = (held, top, max(x.max_size for x in cols))
        got = (group.size, group.max_size, group.max_collection_size)
        if got != want or sum(sizes) != held:
            return f'{n} collections of {sizes}: {got}, expected {want}'
        levels = max(max(l for l in (0, 60, 70, 80, 90)
                         if l == 0 or -(-x // 1) >= l) for x in used)
        if group.status != levels:
            return f'{n} collections of {sizes}: status {group.status}, ' \
                   f'expected {levels}'
    return None


def next_prime(n):
    while any(n % i == 0 for i in range(2, int(n ** .5) + 1)):
        n += 1
    return n


@sized('C04', 'large capacities', upto(9), upto(12), (
    1, 2, 7, 1000, 4999, 5000, 10 ** 6))
def capacities(n, size):
    """Around the n-th power of ten."""
    from citrine.storage import utils
    for cap in {10 ** n + d for d in (-3, -2, -1, 0, 1, 2, 3)} | {
            size * next_prime(10 ** min(n, 6)) + d for d in (-1, 0, 1)}:
        if cap < 1 or cap // size > 10 ** 8:
            continue
        for fn, need in (
                (utils.number_of_collections, -(-cap // size)),
                (utils.next_number_of_collections,
                 -(-((3 * cap + 1) // 2) // size))):
            got, want = fn(cap, size), next_prime(need)
            if got != want:
                return f'{fn.__name__}({cap}, {size}) is {got}, not {want}'
    p = next_prime(10 ** n)
    for x in (p, p + 1, p * next_prime(p // 10 ** (n // 2) + 1)):
        if bool(utils.is_prime(x)) is not (next_prime(x) == x):
            return f'is_prime({x})'
    return None


def base(**more):
    from mc.checks import connection as c
    return c.Base({'groups': ((), ()), 'sizes': (9000,), 'primary': 0, **more})


@sized('C09', 'many ids at once',
       upto(40, 64, 65, 100, 101, 128, 129, 256, 257),
       upto(140, 300, 1000), (1, 2, 3))
def selected(n, step):
    w = base()
    try:
        ids = [f'k{i}' for i in range(n)]
        for i, k in enumerate(ids[::step]):
            w.conn.create(k, i * step)
        want = [None if i % step else i for i in range(n)]
        for asked, expect in ((ids, want), (ids[::-1], want[::-1]),
                              (ids + ids, want + want)):
            for box in (list, tuple):
                got = w.conn[box(asked)]
                if list(got) != expect:
                    return f'{n} ids, every {step} stored: {got}'
        kind, got = outcome(lambda: w.conn[[k + 'x' for k in ids]])
        if kind == 'ok' or not isinstance(got, KeyError):
            return f'{n} ids that are not there: {show((kind, got))}'
        for i, k in enumerate(ids):
            if w.conn.read(k, 'none') != ('none' if i % step else i):
                return f'{k} is {w.conn.read(k)}'
        return None
    finally:
        w.close()


@sized('C10', 'many changes', upto(40, 64, 65, 100, 101, 128), upto(140, 300),
       ('autocommit', 'commit', 'abort'))
def changes(n, how):
    """n changes without a commit of one's own in between."""
    w = base()
    try:
        if how != 'autocommit':
            w.conn.autocommit = False
        held = {}
        other = w.open()
        for i in range(n):
            k = f'k{i % 7}' if i % 3 else f'n{i}'
            if k in held and i % 2:
                w.conn.delete(k)
                del held[k]
            else:
                w.conn.update(k, i)
                held[k] = i
            other.sync()
            got = {x: other.read(x) for x in held if other.read(x) is not None}
            if got != (held if how == 'autocommit' else {}) or \
                    other.container.size != len(got):
                return f'{how}: after {i + 1} changes, {len(got)} are durable'
            if {x: w.conn.read(x) for x in held} != held:
                return f'{how}: after {i + 1} changes, the connection differs'
        if how == 'commit':
            w.conn.transaction_manager.commit()
        elif how == 'abort':
            w.conn.transaction_manager.abort()
            held = {}
        other.sync()
        for conn in (w.conn, other):
            got = {x: conn.read(x) for x in held}
            if got != held or conn.container.size != len(held):
                return f'{how} after {n} changes: {got}'
        other.close()
        return None
    finally:
        w.close()


@sized('C11', 'long blocks', upto(40, 64, 65, 100, 101, 128), upto(140, 300),
       ('end', 'exception', 'refused'))
def block(n, how):
    """A block of n changes."""
    w = base()
    try:
        w.conn.create('k0', 'old')
        other = w.open()
        kind, err = 'ok', None
        try:
            with w.conn:
                for i in range(n):
                    w.conn.update(f'k{i}', i)
                    other.sync()
                    if other.container.size != 1 or \
                            other.read('k0') != 'old':
                        return f'{i + 1} changes in a block are seen outside'
                    if w.conn.read(f'k{i}') != i:
                        return f'change {i + 1} of a block is not seen inside'
                if how == 'exception':
                    raise LookupError('harness')
                w.storage.refuse = how == 'refused'
        except Exception as e:
            kind, err = 'exc', e
        w.storage.refuse = False
        if (kind == 'ok') != (how == 'end'):
            return f'a block of {n} left by {how}: {show((kind, err))}'
        want = {f'k{i}': i for i in range(n)} if how == 'end' else \
            {'k0': 'old'}
        other.sync()
        for conn in (w.conn, other):
            got = {f'k{i}': conn.read(f'k{i}') for i in range(n)
                   if conn.read(f'k{i}') is not None}
            if got != want or conn.container.size != len(want):
                return f'after a block of {n} left by {how}: {got}'
        other.close()
        return None
    finally:
        w.close()


@sized('C13', 'many commits', upto(10), upto(40), ('changes', 'block'))
def commits(n, how):
    """The file as it was after each acknowledged change."""
    import shutil
    from citrine.database.containerdb import ContainerDb
    from mc.checks.lifecycle import Scratch
    with Scratch() as folder:
        path = os.path.join(folder, 'x')
        db, states = ContainerDb(path), []
        conn = db.open()
        for i in range(n):
            if how == 'block':
                with conn:
                    for j in range(i + 1):
                        conn.update(f'k{j}', i)
            else:
                conn.update(f'k{i}', i)
            now = os.path.join(folder, f'y{i}')
            shutil.copyfile(path, now)
            states.append({f'k{j}': i if how == 'block' else j
                           for j in range(i + 1)})
        conn.close()
        db.close()
        for i, want in enumerate(states):
            again = ContainerDb(os.path.join(folder, f'y{i}'))
            conn = again.open()
            got = {k: conn.read(k) for k in states[-1]
                   if conn.read(k) is not None}
            size = conn.container.size
            conn.close()
            again.close()
            if got != want or size != len(want):
                return f'{how}: after {i + 1} of {n}, a copy holds {got}'
    return None


@sized('C14', 'many openings', upto(12), upto(30),
       ('nested', 'one after the other', 'at once', 'reopened'))
def openings(n, how):
    """n blocks or openings of one database."""
    from contextlib import ExitStack
    from citrine.database.containerdb import ContainerDb
    from ZODB.MappingStorage import MappingStorage
    from mc.checks.lifecycle import Scratch
    from citrine.storage.transaction import TransactionManager
    if how == 'reopened':
        with Scratch() as folder:
            path = os.path.join(folder, 'x')
            for i in range(n):
                db = ContainerDb(path)
                with db as conn:
                    got = [conn.read(f'k{j}') for j in range(i)]
                    if got != list(range(i)) or conn.container.size != i:
                        return f'opened {i + 1} times: {got}'
                    conn.create(f'k{i}', i)
                db.close()
        return None
    db = ContainerDb(MappingStorage())
    try:
        if how == 'at once':
            conns = [db.open(TransactionManager()) for _ in range(n)]
            for i, c in enumerate(conns):
                c.sync()
                c.create(f'k{i}', i)
            for c in conns:
                c.sync()
                if [c.read(f'k{i}') for i in range(n)] != list(range(n)):
                    return f'{n} connections: {c.container.size} objects'
                c.close()
            return None
        if how == 'nested':
            with ExitStack() as stack:
                conns = [stack.enter_context(db) for _ in range(n)]
                if len({id(c) for c in conns}) != n or \
                        any(c.opened is None for c in conns):
                    return f'{n} nested blocks: {conns}'
                for i, c in enumerate(conns):
                    c.sync()
                    c.create(f'k{i}', i)
        else:
            conns = []
            for i in range(n):
                with db as c:
                    conns.append(c)
                    if c.opened is None:
                        return f'block {i + 1} has a closed connection'
                    c.create(f'k{i}', i)
                if c.opened is not None:
                    return f'the connection of block {i + 1} stays open'
        if any(c.opened is not None for c in conns):
            return f'{n} blocks: connections stay open'
        with db as c:
            if [c.read(f'k{i}') for i in range(n)] != list(range(n)):
                return f'{n} blocks: {c.container.size} objects'
        return None
    finally:
        db.close()


@sized('C15', 'many databases', upto(10, 13, 16, 17, 33, 65),
       upto(24, 33, 65, 101, 129), (False, True))
def databases(n, limited):
    """n databases, an id in any one or two of them, or in all."""
    from citrine.connection.group_connection import GroupReadConnection
    from citrine.database.containerdb import ContainerDb
    from citrine.exceptions import CitrineDuplicateIdError
    from ZODB.MappingStorage import MappingStorage
    from transaction import TransactionManager
    dbs = [ContainerDb(MappingStorage(), database_name=f'd{i}')
           for i in range(n)]
    spaces = [*combinations(range(n), 1), *pairs(n, 13), tuple(range(n))]
    try:
        for i, db in enumerate(dbs):
            with db as conn:
                with conn:
                    for k, where in enumerate(spaces):
                        if i in where:
                            conn.create(f'k{k}', (k, i))
        group = GroupReadConnection(dbs, transaction_manager=TransactionManager())
        args = {'timeout': timedelta(seconds=30)} if limited else {}
        for k, where in enumerate(spaces):
            kind, got = outcome(group.read, f'k{k}', **args)
            ok = got == (k, where[0]) if kind == 'ok' else \
                len(where) > 1 and isinstance(got, CitrineDuplicateIdError)
            if not ok or kind == 'ok' and len(where) > 1:
                return f'{n} databases, in {where}: {show((kind, got))}'
            if limited and len(where) > 1 and k % 3:
                continue
            got = group.read(f'k{k}', multiple=True, **args)
            if got != {group.connections[i]: (k, i) for i in where}:
                return f'{n} databases, in {where}: {got}'
        if group.read('nowhere', **args) is not None:
            return f'{n} databases: something is read for an unknown id'
        for c in group.connections:
            c.close()
        return None
    finally:
        for db in dbs:
            db.close()


@sized('C16', 'many containers', upto(40, 64, 65, 100, 101, 128, 129),
       upto(150, 400, 1000),
       ('at once', 'one by one', 'doubling'))
def expanded(n, how):
    from citrine.persistence import DbContainer
    con = DbContainer()
    want = {f'k{i}': i for i in range(40)} | {i: -i for i in range(20)}
    for k, v in want.items():
        con.write(k, v)
    sizes = {'at once': [n], 'one by one': range(2, min(n, 80) + 1),
             'doubling': [2 ** i for i in range(1, 9) if 2 ** i < n] + [n]}
    for size in sizes[how]:
        if size == 1:
            continue
        con.expand_size(size)
        con.write('late', size)
        want['late'] = size
        got = {k: con.read(k) for k in want}
        if got != want or con.size != len(want) or \
                con.containers_size != size:
            return f'{size} containers ({how}): {con.size} of {len(want)}, ' \
                   f'{[k for k in want if got[k] != want[k]][:5]} differ'
    for k in want:
        con.delete(k)
    return f'{con.size} left of {n}' if con.size else None


@sized('C17', 'many modules', upto(8), upto(30), ('group', 'functions', 'compiled'))
def modules(n, how):
    """n modules next to each other."""
    from citrine.cluster_tools.dbmodule import dbmodule
    from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
    from mc.checks.modules import Box
    if Box.path is None:
        Box.enter()
    Box.clear(how == 'compiled')
    names = [f'm{i}' for i in range(n)]
    group = DbGroup(Box.path, discovery=False)
    try:
        for i, name in enumerate(names):
            if how != 'functions':
                group.create_dbmodule(name)
            else:
                dbmodule.create_dbmodule(Box.path, name)
        if how == 'functions':
            group = DbGroup(Box.path)
        for i, name in enumerate(names):
            conn = group.modules[name].open()
            for k in range(i + 1):
                conn.create(f'k{k}', (i, k))
            conn.close()
        for when in ('created', 'opened again'):
            if sorted(group.modules) != sorted(names) or \
                    sorted(group.databases) != sorted(names) or \
                    group.size != n * (n + 1) // 2:
                return f'{n} modules, {when}: {sorted(group.modules)}, ' \
                       f'{group.size} objects'
            found = dbmodule.find_dbmodules(Box.path)
            if sorted(map(os.path.basename, found)) != sorted(names):
                return f'{n} modules, {when}: found {found}'
            for i, name in enumerate(names):
                conn = group.modules[name].open()
                got = [conn.read(f'k{k}') for k in range(n)]
                conn.close()
                if got != [(i, k) if k <= i else None for k in range(n)] or \
                        group.modules[name].size != i + 1:
                    return f'{n} modules, {when}: {name} holds {got}'
            for m in group.modules.values():
                m.db.close()
            group = DbGroup(Box.path)
        for name in names[::2]:
            group.modules[name].db.close()
            group.destroy_dbmodule(name)
        if sorted(os.listdir(Box.path)) != sorted(names[1::2]) or \
                sorted(group.modules) != sorted(names[1::2]):
            return f'{n} modules, every second destroyed: ' \
                   f'{os.listdir(Box.path)}, {sorted(group.modules)}'
        return f'reached outside: {Box.escaped}' if Box.escaped else None
    finally:
        for m in group.modules.values():
            m.db.close()


@sized('C18', 'many entries', upto(60, 64, 65, 100, 101, 128, 129, 256),
       upto(200, 500, 1000),
       ('registry', 'legacy'))
def entries(n, kind):
    """n entries, written and committed one after the other or together."""
    from ZODB import DB
    from ZODB.MappingStorage import MappingStorage
    from transaction import TransactionManager
    from citrine.cluster_tools.clusterdb.container import \
        ClusterRegistryContainer
    from citrine.persistence import DbContainer
    from mc.checks.modules import Entry
    for every in (1, 7, n):
        db = DB(MappingStorage())
        conn = db.open()
        con = ClusterRegistryContainer() if kind == 'registry' else \
            DbContainer()
        conn.root.container = con
        tm = conn.transaction_manager
        tm.commit()
        for i in range(n):
            con.write(f'm{i}', Entry(f'm{i}', i) if kind == 'registry' else i)
            if i % every == 0:
                tm.commit()
        tm.commit()
        for i in range(0, n, 3):
            con.delete(f'm{i}')
            if i % every == 0:
                tm.commit()
        tm.commit()
        other = db.open(TransactionManager())
        for c in (con, other.root.container):
            for i in range(n):
                got = c.read(f'm{i}')
                if kind == 'registry' and got is not None:
                    got = got.path
                want = None if i % 3 == 0 else \
                    f'/somewhere/{i}/m{i}' if kind == 'registry' else i
                if got != want or c.has(f'm{i}') is not (i % 3 != 0):
                    return f'{n} entries, committed every {every}: m{i} is ' \
                           f'{got!r}'
        other.close()
        conn.close()
        db.close()
    return None


@sized('C30', 'many changes of a legacy connection',
       upto(40, 64, 65, 100, 101, 128), upto(140, 300),
       ('block', 'left by an exception'))
def legacy(n, how):
    from ZODB.MappingStorage import MappingStorage
    from citrine.persistence import CitrineTransactionManager
    from mc.checks.legacy import Database
    db = Database(MappingStorage())
    conn = db.open(CitrineTransactionManager())
    try:
        conn.setup()
        conn.create('k0', 'old')
        kind, err = 'ok', None
        try:
            with conn:
                for i in range(n):
                    conn.update(f'k{i}', i)
                    if conn.read(f'k{i}') != i:
                        return f'change {i + 1} is not seen inside'
                if how != 'block':
                    raise LookupError('harness')
        except LookupError as e:
            kind, err = 'exc', e
        if (kind == 'ok') != (how == 'block'):
            return f'{how} of {n}: {show((kind, err))}'
        want = {f'k{i}': i for i in range(n)} if how == 'block' else \
            {'k0': 'old'}
        other = db.open(CitrineTransactionManager())
        for c in (conn, other):
            got = {f'k{i}': c.read(f'k{i}') for i in range(n)
                   if c.read(f'k{i}') is not None}
            if got != want or c.size != len(want):
                return f'{how} of {n}: {got}'
        other.close()
        return None
    finally:
        conn.close()
        db.close()


@sized('C31', 'long histories', upto(30, 65), upto(70, 120), ('memory', 'file'))
def histories(n, kind):
    """Each of n states, by a connection opened at it."""
    from mc.checks.history import World
    from transaction import TransactionManager
    w = World(kind)
    try:
        states, held = [{}], {}
        for i in range(n):
            k = f'k{i % 5}'
            if k in held and i % 2:
                w.conn.delete(k)
                del held[k]
            else:
                w.conn.update(k, i)
                held[k] = i
            states.append(dict(held))
            w.noted()
        if len(w.tids) != n + 1:
            return f'{n} changes made {len(w.tids) - 1} transactions'
        for again in (False, True):
            for i, (conn, want) in enumerate(zip(w.held, states)):
                new = w.past(at=w.tids[i])
                for c in (conn, new):
                    got = {f'k{j}': c.read(f'k{j}') for j in range(5)
                           if c.read(f'k{j}') is not None}
                    if got != want:
                        return f'state {i} of {n} is {got}, was {want}'
                new.close()
            if not again:
                w.again()
        return None
    finally:
        w.close()


# -------------------------------------------------------------------- documents
@sized('C19', 'many contexts', upto(70, 100, 101, 128, 129),
       upto(140, 200), ('nested', 'registered'))
def contexts(n, how):
    from mc.checks.values import make, PropertyAwareObject
    names = ['A', 'B', 'C', None]

    class Thing(PropertyAwareObject):
        def __init__(self):
            self.log = []
            super().__init__()
    if how == 'registered':
        every = [f'c{i}' for i in range(n)]
        Thing.p = make((None, *every), (None, *every), (None, *every),
                       'derived')
        obj = Thing()
        for c in (*every, None, *every[::-1], 'other'):
            tag = c if c in every else None
            with obj.switch_context(c):
                obj.p = 1
                del obj.p
                got = obj.p, obj.log[-2]
            if got != (('got', tag, ('del', tag)), ('set', tag, 1)):
                return f'{n} contexts: in {c} {got}'
        return None
    Thing.p = make((None, 'A', 'B'), (None, 'A'), (None,), 'derived')
    obj, blocks = Thing(), []
    tags = [None]
    for i in range(n):
        blocks.append(obj.switch_context(names[(i * i + i) % 4]))
        blocks[-1].__enter__()
        tags.append(names[(i * i + i) % 4])
        if obj.p[1] != (tags[-1] if tags[-1] != 'C' else None):
            return f'{i + 1} contexts deep: {obj.p}, expected {tags[-1]}'
    while blocks:
        b = blocks.pop()
        tags.pop()
        if len(blocks) % 3:
            b.__exit__(None, None, None)
        else:
            e = KeyError('harness')
            if b.__exit__(KeyError, e, None):
                return 'an exception is swallowed'
        if obj.p[1] != (tags[-1] if tags[-1] != 'C' else None):
            return f'left {n - len(blocks)} of {n} contexts: {obj.p}, ' \
                   f'expected {tags[-1]}'
    return None


@sized('C20', 'many values', upto(40, 64, 65), upto(70, 80), (
    'embedded', 'lists in lists', 'dicts in dicts', 'list of objects',
    'tuple of objects', 'dict of objects', 'list in each', 'list of values',
    'with None', 'renamed', 'excluded', 'rejected'))
def written(n, how):
    from mc.checks.values import write_case
    value, options = None, {}
    if how == 'embedded':
        for i in range(n):
            value = ('doc', {'aid': f'a{i}', 'cont': value})
    elif how == 'lists in lists':
        value = ('doc', {'aid': 'a'})
        for i in range(n):
            value = [value, i]
    elif how == 'dicts in dicts':
        value = ('doc', {'aid': 'a'})
        for i in range(n):
            value = {f'k{i}': value, 'n': i}
    elif how == 'dict of objects':
        value = {f'k{i}': ('doc', {'aid': f'a{i}'}) for i in range(n)}
    elif how == 'list in each':
        value = [('doc', {'aid': f'a{i}', 'cont': [('other', {'text': i})]})
                 for i in range(n)]
    elif how == 'list of values':
        value = [(i, f't{i}', None, i / 2, ('special', 'named'))[i % 5]
                 for i in range(n)]
    else:
        value = [('doc', {'aid': f'a{i}', 'text': f't{i}'}) for i in range(n)]
        if how == 'tuple of objects':
            value = ('tuple', value)
        options = {'with None': {'include_none': True},
                   'renamed': {'rename': {f'x{i}': f'y{i}' for i in range(n)}
                               | {'text': 'words'}},
                   'excluded': {'exclude': tuple(f'x{i}' for i in range(n))
                                + ('text',)},
                   'rejected': {'reject_values': tuple(
                       f't{i}' for i in range(n))}}.get(how, {})
    values = {'aid': 'top', 'text': f't{n - 1}', 'cont': value}
    if how == 'rejected':
        values = {'aid': 'top', 'text': f't{n - 1}', 'graph': f't{n}'}
    err = write_case((values, options))
    return err and f'{how}, {n}: {err}'


U = 'https://example.org/'


@sized('C21', 'sized documents', upto(24, 32, 33, 64, 65), upto(70, 101, 129), (
    'replies', 'addresses', 'attachments', 'items', 'ordered', 'mixed',
    'names', 'long text', 'types of items', 'nested collections'))
def documents(n, how):
    from mc.checks import documents as d
    if how == 'replies':
        n = min(n, 30)
        made = None
        for i in range(n):
            made = d.note(i, **({'inReplyTo': made} if made else {}))
        props = {'inReplyTo': made}
    elif how == 'addresses':
        props = {'to': [f'{U}{i}' for i in range(n)],
                 'cc': [f'{U}{i}' for i in range(n, 0, -1)]}
    elif how == 'attachments':
        props = {'attachment': [d.note(i, tag=[{
            'type': 'Mention', 'href': f'{U}m{i}'}, f'{U}t{i}'])
            for i in range(n)]}
    elif how in ('items', 'ordered'):
        t = 'OrderedCollection' if how == 'ordered' else 'Collection'
        return d.document_case(d.doc(t, totalItems=n, **{
            'orderedItems' if how == 'ordered' else 'items':
            [d.note(i) for i in range(n)]}))
    elif how == 'mixed':
        return d.document_case(d.doc('OrderedCollection', orderedItems=[
            (d.note(i), f'{U}{i}', {'type': 'Link', 'href': f'{U}l{i}'})[i % 3]
            for i in range(n)]))
    elif how == 'types of items':
        from mc import as2
        names = [t for t in as2.PARENTS if not as2.is_a(t, 'Link')]
        return d.document_case(d.doc('Collection', items=[
            {'type': names[i % len(names)], 'id': f'{U}{i}', 'name': str(i)}
            for i in range(n)]))
    elif how == 'nested collections':
        n = min(n, 20)
        made = [d.note()]
        for i in range(n):
            made = [{'type': 'Collection', 'id': f'{U}c{i}', 'items': made},
                    f'{U}{i}']
        return d.document_case(d.doc('Collection', items=made))
    elif how == 'names':
        props = {'name': [f'n{i}' for i in range(n)]}
    else:
        props = {'content': 'ü\n"x' * (n * n)}
    return d.document_case(d.doc('Note', **props))


@sized('C22', 'many of a kind', upto(40, 64, 65), upto(70, 101), ('texts', 'classes'))
def kinds(n, how):
    from mc.checks import documents as d
    if how == 'texts':
        names = ('Note', 'Person', 'Create', 'Image', 'Link')
        texts = [json.dumps({'@context': d.as2.AS2, 'type': names[i % 5],
                             'name': f'n{i}'}) for i in range(n)]
        for box in (list, tuple):
            got = d.engine()[box(texts)]
            if len(got) != n or any(
                    type(g) is not getattr(d.engine(), names[i % 5]) or
                    g.name != f'n{i}' for i, g in enumerate(got)):
                return f'{n} texts give {got}'
        return None
    made = []
    for i in range(n):
        bases = (made[i // 2],) if i % 2 else (d.ApplicationActivityJson,)
        made.append(type(f'K{i}', bases, {
            '__get_namespace__': classmethod(
                lambda c, i=i: d.EX + f'K{i}'), 'mark': i,
            '__init__': lambda self, acontext=None, **k: d.
            ApplicationActivityJson.__init__(self, acontext)}))
    for half in (n, n // 2):
        e = d.JsonLdEngine([d.JsonLdPackage(namespace='http://p/',
                                            objects=tuple(made[:half]))])
        for i in range(half, n):
            e.register_class(d.EX + f'K{i}', made[i])
        for i in range(n):
            kind, got = outcome(e.from_json, {
                '@context': {'ex': d.EX}, '@type': f'ex:K{i}'})
            if kind != 'ok' or got.mark != i or type(got) is not (
                    getattr(e, f'K{i}') if i < half else made[i]):
                return f'{n} classes, {half} in a package: K{i} ' \
                       f'{show((kind, got))}'
    return None


@sized('C23', 'large hierarchies', upto(10), upto(16), (
    'chain', 'star', 'ladder', 'two chains'))
def hierarchies(n, how):
    """Classes in a chain, below one class, ..., listed in several orders."""
    from mc.checks import packages as p
    bases = {'chain': lambda i: (i - 1,) if i else (),
             'star': lambda i: (0,) if i else (),
             'ladder': lambda i: tuple(j for j in (i - 1, i - 2) if j >= 0),
             'two chains': lambda i: (i - 2,) if i > 1 and i < n - 1 else
             (i - 1, i - 2) if i > 1 else ()}[how]
    done = 0
    for listed in (range(n), range(n - 1, -1, -1), range(0, n, 2),
                   range(1, n, 2), (n - 1,),
                   sorted(range(n), key=lambda i: (i * 7) % 11)):
        for linked in ((), (0,), tuple(range(0, n, 2))):
            classes = p.build([bases(i) for i in range(n)], range(0, n, 3))
            before = p.snapshot(classes)
            props = {j: p.linked_property(f'link{j}') for j in linked}
            mapping = {p.EX + p.NAMES[j]: (p.EX + f'dfn-link{j}',)
                       for j in linked if j in listed}
            package = p.JsonLdPackage(
                p.EX, tuple(classes[i] for i in listed),
                tuple(props.values()), mapping)
            done += 1
            err = p.relation_error(classes, list(listed), package, props)
            if not err and p.snapshot(classes) != before:
                err = 'the original classes changed'
            if err:
                return f'{how} of {n} listed as {list(listed)}: {err}'
    return None, done, done


@sized('C24', 'many packages', upto(8), upto(13), ('left', 'right', 'tree',
                                                   'engine', 'subtracted'))
def packages(n, how):
    from mc.checks import packages as p
    names = [f'X{i}' for i in range(n)]
    for i, x in enumerate(names):
        p.BASES[x] = {
            'objects': {f'K{i}': None, f'S{i // 2}': None,
                        f'L{i}': f'K{i}'},
            'properties': (f'p{i}', f's{i // 3}'),
            'links': {f'K{i}': (f'p{i}',), f'S{i // 2}': (f's{i // 3}',)}}
    if how == 'engine':
        made = p.JsonLdEngine([p.base_package(x) for x in names])
        want = p.total([p.Packed.base(x) for x in names])
        err = want.class_error(made.package, made.package.objects,
                               lambda o: getattr(made, o))
        if not err:
            one = p.JsonLdEngine(p.base_package(names[0]))
            for x in names[1:]:
                one = one + p.base_package(x)
            err = want.class_error(one.package, one.package.objects,
                                   lambda o: getattr(one, o))
        return err
    tree = names[0]
    if how in ('left', 'subtracted'):
        for x in names[1:]:
            tree = ('+', tree, x)
        if how == 'subtracted':
            for x in names[1::2]:
                tree = ('-', tree, x)
    elif how == 'right':
        tree = names[-1]
        for x in names[-2::-1]:
            tree = ('+', x, tree)
    else:
        level = names
        while len(level) > 1:
            level = [('+', *level[i:i + 2]) if i + 1 < len(level)
                     else level[i] for i in range(0, len(level), 2)]
        tree = level[0]
    return p.package_case(tree)


@sized('C25', 'many links', upto(24, 33, 65), upto(70), ('chain', 'list', 'objects',
                                                 'again'))
def links(n, how):
    from mc import as2
    from mc.checks import documents as d
    e = d.engine()

    def note(i, **more):
        return d.page({'@context': as2.AS2, 'type': 'Note', 'id': f'{U}{i}',
                       'content': f'c{i}', **more})
    as2.Web.reset({f'{U}{i}': note(i, inReplyTo=f'{U}{i + 1}')
                   for i in range(n)})
    if how == 'chain':
        obj = e.Note(id=U + 'me', inReplyTo=f'{U}0')
        for i in range(n):
            obj = obj.inReplyTo
            if type(obj) is not e.Note or obj.content != f'c{i}':
                return f'step {i + 1} of {n} is {obj!r}'
        if not isinstance(obj.inReplyTo, d.models.Link) or \
                obj.inReplyTo.href != f'{U}{n}':
            return f'after {n} steps: {obj.inReplyTo!r}'
        return None
    urls = [f'{U}{i}' for i in range(n)]
    if how == 'list':
        if n < 2:
            return None
        obj = e.Note(id=U + 'me', to=urls)
        got = obj.to
        if as2.Web.requests or [g.href for g in got] != urls:
            return f'{n} addresses: {got}, requests {as2.Web.requests}'
        if json.loads(obj.json())['to'] != urls or as2.Web.requests:
            return f'{n} addresses are written as {obj.json()}'
        return None
    if how == 'objects':
        objs = [e.Note(id=f'{U}o{i}', inReplyTo=u) for i, u in enumerate(urls)]
        for i, o in enumerate(objs):
            if getattr(o.inReplyTo, 'content', None) != f'c{i}' or \
                    json.loads(o.json())['inReplyTo'] != urls[i]:
                return f'object {i + 1} of {n}: {o.inReplyTo!r}'
        return None
    obj = e.Note(id=U + 'me')
    for i, u in enumerate(urls):
        obj.inReplyTo = u
        if getattr(obj.inReplyTo, 'content', None) != f'c{i}' or \
                json.loads(obj.json())['inReplyTo'] != u:
            return f'assignment {i + 1}: {obj.inReplyTo!r}'
    return None


@sized('C26', 'long lists', upto(14, 21), upto(25, 33, 51), ('to', 'items', 'name',
                                                     'url', 'attachment'))
def members(n, prop):
    """A list of n fine members, and one bad member at every position."""
    from mc import as2
    from mc.checks import documents as d
    as2.Web.reset()
    e = d.engine()
    cls = e.Collection if prop == 'items' else e.Note

    def fine(i):
        if prop == 'name':
            return f'n{i}'
        if prop == 'url' or i % 2:
            return f'{U}{i}'
        return e.Note(id=f'{U}{i}')
    good = [fine(i) for i in range(n)]
    obj = cls(id=U + 'me')
    setattr(obj, prop, good)
    got = getattr(obj, prop)
    if len(got) != n or any(
            g is not w if not isinstance(w, str) else
            getattr(g, 'href', g) != w for g, w in zip(got, good)):
        return f'{prop} of {n} is read as {got}'
    text = obj.json()
    for i in range(n):
        for bad in (5, True, {1}, object()):
            values = good[:i] + [bad] + good[i + 1:]
            kind, err = outcome(setattr, obj, prop, values)
            if kind == 'ok' or not isinstance(err, ValueError):
                return f'{bad!r} at {i} of {n}: {show((kind, err))}'
            kind, err = outcome(lambda: cls(id=U + 'x', **{prop: values}))
            if kind == 'ok' or not isinstance(err, ValueError):
                return f'{bad!r} at {i} of {n}: {show((kind, err))}'
    if obj.json() != text:
        return f'{prop} became {obj.json()}'
    return None


@sized('C28', 'many pages', upto(40, 63, 64, 65, 127, 128, 129, 200, 300),
       upto(140, 255, 256, 257, 511, 512, 513, 1000, 1500),
       ('forward', 'backward', 'each twice', 'plain'))
def pages(n, how):
    from mc import as2
    from mc.checks import codecs as c
    tail = next(c._unique)
    urls = [f'https://many.org/{tail}/{i}' for i in range(n)]
    as2.Web.reset({u: (200, {'content-type': 'application/ld+json'},
                       json.dumps({'@context': {'v': u}})) for u in urls})
    loader = c.RequestsJsonLoader() if how == 'plain' else \
        c.CachedRequestsJsonLoader()
    for i, u in enumerate(urls):
        for _ in range(1 + (how == 'each twice')):
            if loader(u, {})['document'] != {'@context': {'v': u}}:
                return f'page {i + 1} of {n} differs'
    asked = [u for u, _ in as2.Web.requests]
    if asked != urls:
        return f'{len(asked)} requests for {n} pages'
    as2.Web.reset()
    if how == 'plain':
        for u in urls[::-1]:
            if outcome(loader, u, {})[0] == 'ok':
                return f'one of {n} pages is given although it is gone'
        return None
    other = c.CachedRequestsJsonLoader()
    for u in urls[::-1 if how == 'backward' else 1]:
        for l in (loader, other):
            kind, got = outcome(l, u, {})
            if kind != 'ok' or got['document'] != {'@context': {'v': u}}:
                return f'{u}, loaded before {n - 1} others, is gone: ' \
                       f'{show((kind, got))}'
    if as2.Web.requests:
        return f'{len(as2.Web.requests)} requests for pages already loaded'
    return None
