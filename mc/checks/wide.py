"""Unusual ids, values and numbers of objects, for everything that stores:
used by the checks of C01, C03, C05, C06, C09, C14, C16, C17, C18 and C30."""
import datetime
import decimal
import os
import uuid

from persistent import Persistent
from persistent.mapping import PersistentMapping
from ZODB import DB
from ZODB.MappingStorage import MappingStorage

from mc.core import cases
from mc.checks.legacy import Database
from mc.checks.lifecycle import Scratch

from citrine.cluster_tools.clusterdb.container import \
    ClusterRegistryContainer
from citrine.database.containerdb import ContainerDb
from citrine.persistence import CitrineTransactionManager, DbContainer
from citrine.storage.collection import Collection
from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import TransactionManager

# pairs of them are easily taken for one another
IDS = ('', ' ', 'a', 'A', 'a ', ' a', 'a\n', 'a\t', 'b', 'aa', 'a/', '/a',
       'a/b', 'a//b', 'a.b', 'a#b', 'a#', 'a?b=1', 'A/B', '0', '00', '1', '-1',
       '1.0', '1e0', 'é', 'e\u0301', 'É', 'ß', 'ss', 'ﬁ', 'fi', 'İ', 'i', 'ı',
       '€' * 70, '€' * 71, '\0', 'a\0', '😀', '\uffff', '\u200b', 'a' * 255,
       'a' * 256, 'a' * 999 + 'b', 'a' * 999 + 'c', 'None', 'null', 'True',
       '__init__', 'meta', 'container', 'size', 'https://x.example/u/1',
       'https://x.example/u/1/', 'http://x.example/u/1',
       'https://x.example/u/2', 'https://X.example/u/1',
       'https://x.example/u/1#main-key', 'https://x.example/u/1?page=2',
       'https://x.example/u/%31', 'acct:a@x.example', '@a@x.example',
       'urn:uuid:00000000-0000-0000-0000-000000000000')
FEW = IDS[:1] + IDS[2:5] + IDS[25:27] + IDS[-12:-8]


class Odd:
    """Looks like nothing and like everything."""

    def __init__(self, mark):
        self.mark = mark

    def __bool__(self):
        raise ValueError('no truth value')


class Same(Odd):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


class Thing(Persistent):
    def __init__(self, mark):
        self.mark = mark

    def __len__(self):
        return 0


def values():
    day = datetime.datetime(2024, 2, 29, 23, 59, 59, 999999)
    return [None, False, True, 0, 1, -1, 0.0, -0.0, 1.0, float('nan'),
            float('inf'), 10 ** 40, 2 + 3j, '', ' ', '0', 'None', 'é' * 400,
            b'', b'\0', bytearray(b'a'), (), (None,), [], [[]], [None],
            {}, {'a': None}, {1: {2: [3]}}, set(), frozenset((1, '1')), day,
            day.replace(tzinfo=datetime.timezone.utc), day.date(),
            datetime.timedelta(0), decimal.Decimal('0.10'), uuid.UUID(int=0),
            Ellipsis, NotImplemented, KeyError('a'), Exception, len, range(0),
            Odd(1), Same(1), Thing(1), Thing(2), PersistentMapping(),
            PersistentMapping({'a': 1}), 'x' * 100000]


def alike(x, y):
    """Whether a stored value came back as it was."""
    if isinstance(x, (Odd, Thing)):
        return type(x) is type(y) and x.mark == y.mark
    if isinstance(x, PersistentMapping):
        return type(x) is type(y) and dict(x) == dict(y)
    if isinstance(x, BaseException):
        return type(x) is type(y) and x.args == y.args
    return type(x) is type(y) and repr(x) == repr(y) if not isinstance(
        x, (set, frozenset)) else type(x) is type(y) and x == y


# ------------------------------------------------------- things that store
class Tree:
    """A collection, or a group of some."""

    def __init__(self, n=0):
        self.it = Group.new(n, 100000) if n else Collection(max_size=100000)

    def put(self, k, v):
        if not self.it.has_key(k):
            return self.it.insert(k, v) == 1
        self.it.update({k: v})
        return True

    def get(self, k, default):
        return self.it.get(k, default)

    def has(self, k):
        return bool(self.it.has_key(k))

    def drop(self, k):
        self.it.pop(k)

    def size(self):
        return self.it.size

    def ids(self):
        # those of a group are given in any order
        ids = list(self.it.keys())
        return ids if isinstance(self.it, Collection) else sorted(ids)

    def restart(self):
        pass

    close = restart


class Groups(Tree):
    """A container; another group has some of the ids, too."""

    def __init__(self, *old):
        second = Group.new(2, 1000)
        for k in old:
            second.insert(k, 'old')
        primary = Group.new(3, 100000)
        self.it = Container(primary, (primary, second))

    def put(self, k, v):
        self.it.write(k, v)
        return True

    def get(self, k, default):
        return self.it.read(k, default)

    def has(self, k):
        return bool(self.it.has(k))

    def drop(self, k):
        self.it.delete(k)

    def ids(self):
        return None


class Connected(Groups):
    """A connection to a database, in memory or in a file."""

    def __init__(self, path=None):
        self.path = path
        self.db = ContainerDb(MappingStorage()) if path is None else \
            ContainerDb.new(path)
        self.it = self.db.open(TransactionManager())

    def put(self, k, v):
        if not self.it.container.has(k):
            self.it.create(k, v)
        else:
            self.it.update(k, v)
        return True

    def has(self, k):
        try:
            self.it[k]
            return True
        except KeyError:
            return False

    def size(self):
        return self.it.container.size

    def restart(self):
        self.it.close()
        if self.path is not None:
            self.db.close()
            self.db = ContainerDb(self.path)
        else:
            self.db.cacheMinimize()
        self.it = self.db.open(TransactionManager())

    def close(self):
        self.it.transaction_manager.abort()
        self.it.close()
        self.db.close()


class Legacy(Connected):
    def __init__(self, n=1):
        self.db = Database(MappingStorage())
        self.path = None
        self.it = self.db.open(CitrineTransactionManager())
        self.it.setup()
        if n > 1:
            self.it.expand_containers(n - 1)

    def put(self, k, v):
        self.it.update(k, v)
        return True

    def get(self, k, default):
        got = self.it.read(k)
        return default if got is None and not self.has(k) else got

    def has(self, k):
        return self.it.container.has(k)

    def size(self):
        return self.it.size

    def restart(self):
        self.it.close()
        self.db.cacheMinimize()
        self.it = self.db.open(CitrineTransactionManager())


class Old(Legacy):
    """A container of legacy databases by itself."""

    def __init__(self, n=1):
        self.it = DbContainer({k: PersistentMapping() for k in range(n)})

    def put(self, k, v):
        self.it.write(k, v)
        return True

    def has(self, k):
        return self.it.has(k)

    def drop(self, k):
        self.it.delete(k)

    def restart(self):
        self.it.expand_size(self.it.containers_size + 1)

    def close(self):
        pass


SUBJECTS = {
    'collection': Tree, 'group': lambda: Tree(7), 'container': Groups,
    'connection': Connected, 'legacy': lambda: Legacy(3), 'old': lambda: Old(3)}


def subject(name):
    if name == 'file':
        scratch = Scratch()
        s = Connected(os.path.join(scratch.__enter__(), 'db'))
        close = s.close
        s.close = lambda: (close(), scratch.__exit__())
        return s
    return SUBJECTS[name]()


def pair_case(case):
    """Two ids, one after the other; they and no others are there, and one
    stays when the other goes."""
    name, a, b, others = case
    others = IDS if others else FEW
    s = subject(name)
    try:
        held = {}

        def check(when):
            for k in (a, b, *others):
                got = s.get(k, Ellipsis)
                want = held.get(k, Ellipsis)
                if got != want or s.has(k) != (k in held):
                    return f'{name}, {when}: {k!r} is {got!r}, there: ' \
                           f'{s.has(k)}, expected {want!r} of {held!r}'
            if s.size() != len(held):
                return f'{name}, {when}: size {s.size()}, {held!r}'
            if s.ids() is not None and s.ids() != sorted(held):
                return f'{name}, {when}: ids {s.ids()!r}, {held!r}'
            return None
        for step, when in enumerate(('stored', 'both stored', 'restarted',
                                     'replaced', 'one removed', 'restarted',
                                     'both removed')):
            if step == 0:
                s.put(a, 1)
                held[a] = 1
            elif step == 1:
                s.put(b, 2)
                held[b] = 2
            elif step == 3:
                s.put(a, 3)
                held[a] = 3
            elif step == 4:
                s.drop(a)
                del held[a]
            elif step == 6:
                s.drop(b)
                del held[b]
            else:
                s.restart()
            err = check(when)
            if err:
                return err
    finally:
        s.close()
    return None


def every_case(case):
    """All ids at once, one after the other, and removed again."""
    name, backwards = case
    s = subject(name)
    ids = IDS[::-1] if backwards else IDS
    try:
        held = {}
        for step in ('put', 'restart', 'replace', 'drop'):
            if step == 'restart':
                s.restart()
            for i, k in enumerate(ids):
                if step in ('put', 'replace'):
                    held[k] = i, step
                    s.put(k, (i, step))
                elif step == 'drop':
                    s.drop(k)
                    del held[k]
                elif i:
                    break
                for o in IDS:
                    got = s.get(o, Ellipsis)
                    if got != held.get(o, Ellipsis) or s.has(o) != (o in held):
                        return f'{name}, {step} {k!r}: {o!r} is {got!r}, ' \
                               f'there: {s.has(o)}, expected ' \
                               f'{held.get(o, "nothing")!r}'
                if s.size() != len(held):
                    return f'{name}, {step} {k!r}: size {s.size()}, not ' \
                           f'{len(held)}'
                if s.ids() is not None and s.ids() != sorted(held):
                    return f'{name}, {step} {k!r}: ids {s.ids()!r}'
    finally:
        s.close()
    return None


def value_case(case):
    """A value, replaced by another one."""
    name, i, j = case
    s = subject(name)
    x, y = values()[i], values()[j]
    try:
        s.put('a', x)
        s.put('b', y)
        for when in ('stored', 'restarted'):
            for k, v in (('a', x), ('b', y)):
                if not alike(v, s.get(k, MISSING)) or not s.has(k):
                    return f'{name}, {when}: {show(v)} became ' \
                           f'{show(s.get(k, MISSING))}'
            s.restart()
        y = values()[j]
        s.put('a', y)
        for when in ('replaced', 'restarted'):
            if not alike(y, s.get('a', MISSING)) or s.size() != 2:
                return f'{name}, {when}: {show(x)} became ' \
                       f'{show(s.get("a", MISSING))} instead of {show(y)}'
            s.restart()
        s.drop('a')
        if s.has('a') or s.get('a', MISSING) is not MISSING or \
                not s.has('b') or not alike(y, s.get('b', MISSING)):
            return f'{name}: {show(y)} was not removed'
    finally:
        s.close()
    return None


def show(v):
    try:
        return f'{type(v).__name__} {v!r}'[:80]
    except Exception:
        return type(v).__name__


MISSING = object()


def pairs(name, i=0, n=1, all_ids=False):
    for k, a in enumerate(IDS):
        if k % n == i:
            for b in IDS:
                if a != b:
                    yield name, a, b, all_ids


def replaced(name, i=0, n=1, step=1):
    total = len(values())
    for a in range(total):
        if a % n == i:
            for b in range(a % step, total, step):
                yield name, a, b


def many_case(case):
    """A container with n objects and m others, partly the same ids, resized
    or condensed."""
    n, m, op = case
    first = {f'k{i}': i for i in range(n)}
    second = {f'k{i}': -i for i in range(n - m // 2, n - m // 2 + m)}
    new, old = Group.new(3, 9000), Group.new(2, 9000)
    for group, held in ((new, first), (old, second)):
        for k, v in held.items():
            group.insert(k, v)
    s = Container(new, (new, old))
    want = {**second, **first}
    total = n + m
    if op[0] == 'resize':
        cap, size = total * op[1] + 1, op[2]
        condense, transfer = op[3:]
        gone = s.resize(cap, size, condense=condense, transfer=transfer)
        if s.capacity < cap or s.primary.max_collection_size > size:
            return f'{case}: capacity {s.capacity}'
    else:
        condense, transfer = True, op[1]
        gone = s.condense(transfer)
    got = {k: s.read(k, MISSING) for k in want}
    if got != want or s.read('none', MISSING) is not MISSING:
        bad = [k for k in want if got[k] != want[k]][:5]
        return f'{case}: {bad} became {[got[k] for k in bad]}'
    gone, sources = list(gone), [old] if op[0] == 'condense' else \
        [new, old] if condense else [new]
    if len(gone) != len(sources) * transfer or \
            any(x is not y for x, y in zip(gone, sources)):
        return f'{case}: gave {gone}'
    if [x.size for x in (new, old)] != [
            0 if transfer and x in sources else k if x is not s.primary
            else len(want) for x, k in ((new, n), (old, m))]:
        return f'{case}: the groups have {new.size} and {old.size} objects'
    held = [dict(x.items()) for x in s.groups]
    if s.size != sum(map(len, held)):
        return f'{case}: size {s.size}'
    if held[0] != (want if condense else first):
        return f'{case}: the primary has {len(held[0])} objects'
    if transfer and condense and len(held) != 1 or len(held) != \
            2 + (op[0] == 'resize') - len(gone):
        return f'{case}: {len(held)} groups'
    for i, k in enumerate(list(want)[::7]):
        s.delete(k)
        if s.has(k) or s.read(k) is not None:
            return f'{case}: {k} cannot be removed'
    return None


def many(thorough=False):
    counts = [*range(0, 70), 100, 250, 500] + ([1000, 3000] if thorough else [])
    ops = [('condense', t) for t in (True, False)]
    ops += [('resize', f, size, c, t) for f, size in ((1, 9000), (3, 40))
            for c in (True, False) for t in (True, False)]
    for n in counts:
        for m in (0, 1, 31, 64):
            if m // 2 <= n:
                for op in ops:
                    yield n, m, op


def lots_case(case):
    """n objects at once, every third of them removed at once."""
    name, n, unit = case
    s = subject(name)
    try:
        held = {}
        for todo in ([f'k{i}' for i in range(n)],
                     [f'k{i}' for i in range(0, n, 3)]):
            for at in range(0, n, unit):
                with s.it:
                    for k in todo[at:at + unit]:
                        if k in held:
                            s.it.delete(k)
                            del held[k]
                        else:
                            s.it.create(k, n - len(held))
                            held[k] = n - len(held)
            s.restart()
            got = {k: s.get(k, None) for k in [f'k{i}' for i in range(n)]
                   if s.has(k)}
            if got != held or s.size() != len(held):
                return f'{case}: {len(got)} objects, size {s.size()}, ' \
                       f'expected {len(held)}'
            if list(s.it[list(held)] if held else []) != list(held.values()):
                return f'{case}: reading all at once'
    finally:
        s.close()
    return None


def lots(names, thorough=False):
    for name in names:
        for n in (1, 2, 29, 30, 31, 32, 60, 61, 64, 65, 100, 128, 250, 300,
                  500) + ((1000, 3000) if thorough else ()):
            for unit in (1000, 7):
                yield name, n, unit


CASES = {'pairs of unusual ids': pair_case, 'unusual ids': every_case,
         'unusual values': value_case,
         'many objects': many_case, 'objects at once': lots_case}


class Registered(Old):
    """A registry of modules."""

    def __init__(self):
        self.it = ClusterRegistryContainer()

    def put(self, k, v):
        module = type('Module', (), {'name': k, 'path': v})
        self.it.write(k, module)

    def get(self, k, default):
        got = self.it.read(k)
        return default if got is None else \
            got.path if got.name == k else got.name

    def size(self):
        return len(self.it.modules)

    def restart(self):
        pass


SUBJECTS['registry'] = Registered


def jobs(name, thorough=False, parts=4, what=('pairs', 'every', 'values')):
    """The cases of a subject, as jobs of ``parallel``."""
    def job(c, i):
        if 'pairs' in what:
            cases(c, 'pairs of unusual ids', pairs(name, i, parts, thorough),
                  pair_case)
        if 'values' in what:
            # all pairs if it is quick, otherwise those of a coarser grid
            step = 1 if name in ('collection', 'group', 'container', 'old') \
                else 3 if thorough else 7
            cases(c, 'unusual values', replaced(name, i, parts, step),
                  value_case)
        if 'every' in what and i < 2:
            cases(c, 'unusual ids', [(name, i)], every_case)
        if 'many' in what:
            cases(c, 'many objects', list(many(thorough))[i::parts], many_case)
        if 'lots' in what:
            cases(c, 'objects at once', list(lots([name], thorough))[i::parts],
                  lots_case)
    return [(job, i) for i in range(parts)]
