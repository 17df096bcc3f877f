"""Containers: C05 (reads and writes), C06 (resizing and condensing),
C07 (crashes, faults and other writers during either)."""
from itertools import product

from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import POSError, ConflictError

from mc import maps
from mc.checks import wide
from mc.core import Driver, explore, cases, parallel, show
from mc.maps import MISSING

from citrine.database.containerdb import ContainerDb
from citrine.storage.collection import CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import Group, GroupCapacityError
from citrine.storage.transaction import TransactionManager

REFUSED = (CollectionCapacityError, GroupCapacityError)
KEYS = ('a', 'b', 'c')
NEW = '@'                 # a stored value: falsy ones matter as well


def make(cfg):
    """A container of groups with the given contents; groups[primary] is the
    primary. Values tell key and group, some of them are falsy."""
    groups = []
    for i, stored in enumerate(cfg['groups']):
        g = Group.new(custom=dict(enumerate(cfg.get('sizes', (9, 9, 9)))))
        for k in stored:
            g.insert(k, value(k, i))
        groups.append(g)
    return Container(groups[cfg['primary']], tuple(groups),
                     strict=cfg.get('strict', False))


def value(key, group):
    return {('a', 0): 0, ('b', 1): '', ('c', 0): None}.get(
        (key, group), f'{key}{group}')


def contents(group):
    return tuple(sorted(group.items(), key=lambda kv: kv[0]))


def visible(groups):
    """What reading gives for every id: groups are asked in their order."""
    seen = {}
    for g in groups:
        for k, v in g:
            seen.setdefault(k, v)
    return tuple(sorted(seen.items()))


def shapes(n, keys=KEYS):
    """Every distribution of the keys over n groups."""
    subsets = [tuple(k for k, take in zip(keys, t) if take)
               for t in product((0, 1), repeat=len(keys))]
    return product(subsets, repeat=n)


# ------------------------------------------------------------------------- C05
class Crud(Driver):
    name = 'container'
    configs = ()
    domain = KEYS + ('d',)

    def build(self, cfg):
        if cfg.get('lone'):         # the primary is not among the groups
            whole = make(cfg)
            rest = tuple(g for g in whole.groups if g is not whole.primary)
            return Container(whole.primary, rest)
        return make(cfg)

    def initial(self, cfg):
        groups = tuple(tuple((k, value(k, i)) for k in sorted(g))
                       for i, g in enumerate(cfg['groups']))
        p = cfg['primary']
        if cfg.get('lone'):
            groups = (groups[p],) + groups[:p] + groups[p + 1:]
            p = 0
        return p, groups

    def ops(self, cfg, model):
        for k in self.domain:
            yield 'write', k, NEW
            yield 'write', k, 0
            yield 'delete', k
        yield 'write', 'a', None
        yield 'write', 'a', ''

    def apply(self, cfg, impl, op):
        return getattr(impl, op[0])(*op[1:])

    def step(self, cfg, model, op, out):
        p, groups = model
        groups = list(groups)
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        if kind == 'exc':
            return model, bad
        if op[0] == 'write':
            groups[p] = maps.put(groups[p], op[1], op[2])
            return (p, tuple(groups)), None
        want = tuple(maps.get(g, op[1]) for g in groups
                     if maps.get(g, op[1]) is not MISSING)
        if not isinstance(val, tuple) or not maps.same_list(list(val),
                                                            list(want)):
            return model, bad + f', removed {want!r}'
        return (p, tuple(maps.drop(g, op[1]) for g in groups)), None

    def observe(self, cfg, impl, model):
        p, groups = model
        if len(impl.groups) != len(groups) or impl.primary is not \
                impl.groups[p]:
            return f'{len(impl.groups)} groups, primary moved'
        for g, want in zip(impl.groups, groups):
            if not maps.same_list(list(contents(g)), list(want)):
                return f'a group holds {contents(g)!r}, model {want!r}'
        view = visible(groups)
        for k in self.domain:
            want = maps.get(view, k)
            for default in (MISSING, 0):
                got = impl.read(k, default)
                if not maps.same(got, default if want is MISSING else want):
                    return f'read({k!r}, {default!r}) gave {got!r}, ' \
                           f'model {want!r}'
            if want is MISSING and impl.read(k) is not None:
                return f'read({k!r}) gave {impl.read(k)!r} for a missing id'
            held = sum(maps.get(g, k) is not MISSING for g in groups)
            if impl.has(k) != held:
                return f'has({k!r}) is {impl.has(k)}, in {held} groups'
        if impl.size != sum(map(len, groups)) or impl.used != len(groups[p]):
            return f'size {impl.size}, used {impl.used}: {groups!r}'
        return None


def c05(ctx):
    """Containers of one to three groups, every distribution of three ids over
    them and every place of the primary: all write/delete histories, with every
    read, count and group compared after each step."""
    def job(c, cfgs, depth):
        explore(c, Crud(), depth=depth, suffix=0, configs=cfgs)
    one = [{'groups': s, 'primary': 0} for s in shapes(1)]
    two = [{'groups': s, 'primary': p} for s in shapes(2) for p in (0, 1)]
    lone = [{'groups': s, 'primary': 1, 'lone': True} for s in shapes(2)]
    three = [{'groups': s, 'primary': p}
             for s in shapes(3, KEYS if ctx.thorough else KEYS[:2])
             for p in (0, 1, 2)]
    d = 3 if ctx.thorough else 2
    jobs = [(job, one, d + 2)]
    jobs += [(job, two[i::4], d) for i in range(4)]
    jobs += [(job, lone, d)]
    jobs += [(job, three[i::8], 1 if ctx.thorough else 2) for i in range(8)]
    jobs += wide.jobs('container', ctx.thorough)
    parallel(ctx, jobs)


# ------------------------------------------------------------------------- C06
class Reshape(Driver):
    """resize and condense, mixed with writes and deletes."""
    name = 'reshape'
    domain = KEYS + ('d',)

    def build(self, cfg):
        return make(cfg)

    def initial(self, cfg):
        return (cfg['primary'], tuple(
            tuple((k, value(k, i)) for k in sorted(g))
            for i, g in enumerate(cfg['groups'])))

    def ops(self, cfg, model):
        total = sum(map(len, model[1]))
        if len(model[1]) < 5:
            for cap in (total - 1, max(total, 1), total + 4):
                if cap < 0:
                    continue
                for mcs in (1, 3, 5000):
                    for cond in (False, True):
                        for trans in (True, False):
                            yield 'resize', cap, mcs, cond, trans
            yield 'resize', total + 4
        yield 'condense', True
        yield 'condense', False
        yield 'condense',
        yield 'write', 'a', NEW
        yield 'write', 'd', 0
        yield 'delete', 'b'

    def apply(self, cfg, impl, op):
        """Result by position of the returned groups, and the groups after."""
        before = impl.groups
        err = res = None
        try:
            if op[0] == 'resize' and len(op) == 2:
                res = impl.resize(op[1])
            elif op[0] == 'resize':
                res = impl.resize(op[1], op[2], condense=op[3], transfer=op[4])
            elif op[0] == 'condense':
                res = impl.condense(*op[1:])
            else:
                res = getattr(impl, op[0])(*op[1:])
        except Exception as e:
            err = e
        if err is None and op[0] in ('resize', 'condense'):
            # which of the groups the container had before were handed back
            res = [next((i for i, b in enumerate(before) if b is g), None)
                   for g in res]
        after = impl.groups
        kept = tuple(next((i for i, b in enumerate(before) if b is g), 'new')
                     for g in after)
        return (err, res, kept, tuple(contents(g) for g in after),
                [i for i, g in enumerate(after) if g is impl.primary],
                impl.capacity, len(impl.primary.collections),
                [c.max_size for c in impl.primary.collections], impl.strict,
                [contents(b) for b in before],
                {k: impl.read(k, MISSING) for k in self.domain})

    def step(self, cfg, model, op, out):
        p, groups = model
        strict = cfg.get('strict', False)
        if op[0] == 'resize' and len(op) == 2:
            op += (5000, False, True)
        if out[0] == 'exc':
            return model, f'{op}: {show(out)}'
        err, res, kept, after, prim, cap, ncols, colsizes, now_strict, \
            old, reads = out[1]
        bad = f'{op} on {groups!r} (primary {p}) gave {res!r}, ' \
              f'error {err!r}, groups {after!r}'
        total = sum(map(len, groups))
        if len(prim) != 1:
            return model, bad + ': the primary is not exactly one group'
        if now_strict is not strict:
            return model, bad + f': strict became {now_strict}'
        view = visible(after)
        for k in self.domain:
            if not maps.same(reads[k], maps.get(view, k)):
                return model, bad + f': {k!r} reads {reads[k]!r}'
        same_groups = kept == tuple(range(len(groups)))
        if op[0] == 'write' or op[0] == 'delete':
            if err is not None:
                if strict and op[0] == 'write' and isinstance(err, REFUSED) \
                        and same_groups and after == groups:
                    return model, None
                return model, bad
            if op[0] == 'write':
                want = tuple(maps.put(g, *op[1:]) if i == p else g
                             for i, g in enumerate(groups))
            else:
                want = tuple(maps.drop(g, op[1]) for g in groups)
            return (p, want), None if after == want else bad
        if op[0] == 'resize' and op[1] < total:
            ok = isinstance(err, ValueError) and same_groups \
                and after == groups and prim == [p]
            return model, None if ok else bad + ': below the stored objects'
        transfer = op[4] if op[0] == 'resize' else (op[1:] or (True,))[0]
        if op[0] == 'resize':
            sources = list(range(len(groups))) if op[3] else [p]
            start, others = (), [i for i in range(len(groups))
                                 if i not in sources]
        else:
            sources = [i for i in range(len(groups)) if i != p]
            start = groups[p]
        if err is not None:
            # only a strict primary may refuse objects, and nothing is lost
            if not strict or not isinstance(err, REFUSED):
                return model, bad
            if op[0] == 'resize' and min(colsizes) >= total:
                return model, bad + ': there was enough room'
            left = set(k for k, _ in visible(after))
            if left != set(k for k, _ in visible(groups)):
                return model, bad + ': ids were lost'
            if p == 0 and visible(after) != visible(groups):
                return model, bad + ': values changed'
            return (prim[0], after), None
        for i in sources:                       # earlier groups win
            for k, v in groups[i]:
                if maps.get(start, k) is MISSING:
                    start = maps.put(start, k, v)
        if op[0] == 'resize':
            want_kept = ('new',) + tuple(
                i for i in range(len(groups))
                if not transfer or i not in sources)
        else:
            want_kept = tuple(i for i in range(len(groups))
                              if not transfer or i == p)
        want = tuple(start if i == 'new' or (op[0] == 'condense' and i == p)
                     else groups[i] for i in want_kept)
        want_prim = 0 if op[0] == 'resize' else want_kept.index(p)
        if kept != want_kept or after != want or prim != [want_prim]:
            return model, bad + f', expected {want!r} from {want_kept}'
        if res != (sources if transfer else []):
            return model, bad + f', expected the groups {sources}'
        if transfer and any(old[i] for i in sources):
            return model, bad + ': a transferred group is not empty'
        if not transfer and any(old[i] != groups[i] for i in sources):
            return model, bad + ': a source was changed without transfer'
        if op[0] == 'resize':
            if cap < op[1] or max(colsizes) > op[2]:
                return model, bad + f': capacity {cap} by {colsizes}'
            if any(ncols % d == 0 for d in range(2, ncols)):
                return model, bad + f': {ncols} collections'
        if p == 0 and visible(after) != visible(groups) and \
                (transfer or op[0] == 'resize'):
            return model, bad + ': a visible value changed'
        return (want_prim, want), None


def c06(ctx):
    """Every distribution of ids over one to three groups, every place of the
    primary, strict and not: all histories of resizes (three capacities, three
    collection sizes, condense and transfer on and off), condenses, writes and
    deletes; groups, contents, reads and returned groups compared exactly."""
    def job(c, cfgs, depth):
        explore(c, Reshape(), depth=depth, suffix=0, configs=cfgs)
    t = ctx.thorough
    jobs = []
    one = [{'groups': s, 'primary': 0, 'strict': st}
           for s in shapes(1) for st in (False, True)]
    jobs += [(job, one[i::4], 3 if t else 2) for i in range(4)]
    two = [{'groups': s, 'primary': p, 'strict': st}
           for s in shapes(2, KEYS if t else KEYS[:2]) for p in (0, 1)
           for st in (False, True)]
    jobs += [(job, two[i::8], 2) for i in range(8)]
    three = [{'groups': s, 'primary': p, 'strict': st,
              'sizes': (1,) if st else (2, 1)}
             for s in shapes(3, KEYS if t else KEYS[:2]) for p in (0, 1, 2)
             for st in (False, True)
             if not st or all(len(x) <= 1 for x in s)]
    jobs += [(job, three[i::8], 1) for i in range(8)]
    tight = [{'groups': s, 'primary': 0, 'strict': True, 'sizes': (1, 1)}
             for s in shapes(2) if all(len(x) <= 1 for x in s)]
    jobs += [(job, tight, 2)]
    jobs += wide.jobs('container', t, 8, ('many',))
    parallel(ctx, jobs)


# ------------------------------------------------------------------------- C07
class Refuse(POSError):
    """The storage fails to commit (disk full, lost connection...)."""


class FaultyStorage(MappingStorage):
    """Refuses the commit that is number ``fail_at`` (from 1)."""

    def __init__(self):
        super().__init__()
        self.commits = 0
        self.fail_at = None
        self.counting = False

    def tpc_vote(self, transaction):
        if self.counting:
            self.commits += 1
            if self.commits == self.fail_at:
                raise Refuse('injected')
        return super().tpc_vote(transaction)


class BoundaryManager(TransactionManager):
    """Calls ``between(n)`` before its n-th transaction begins."""
    between = None
    count = 0

    def begin(self):
        if self.between is not None:
            self.count += 1
            self.between(self.count)
        return super().begin()


DOMAIN = KEYS + ('d',)


class World:
    """A database whose container has the given groups, one connection."""

    def __init__(self, cfg):
        self.storage = FaultyStorage()
        self.db = ContainerDb(self.storage)
        self.tm = BoundaryManager()
        self.conn = self.db.open(transaction_manager=self.tm)
        with self.tm:
            self.conn.root.container = make(cfg)
        self.before = [t.tid for t in self.storage.iterator()]

    def act(self, op):
        con = self.conn.container
        self.storage.counting = True
        try:
            if op[0] == 'condense':
                return con.condense(transfer=op[1],
                                    transaction_manager=self.tm)
            return con.resize(op[1], op[2], condense=op[3], transfer=op[4],
                              transaction_manager=self.tm)
        finally:
            self.storage.counting = False

    def tids(self):
        return [t.tid for t in self.storage.iterator()
                if t.tid not in self.before]

    def at(self, tid):
        """What a process that was started after this commit reads."""
        conn = self.db.open(transaction_manager=TransactionManager(), at=tid)
        try:
            return self.reads(conn)
        finally:
            conn.close()

    def fresh(self):
        conn = self.db.open(transaction_manager=TransactionManager())
        try:
            return self.reads(conn)
        finally:
            conn.close()

    @staticmethod
    def reads(conn):
        return tuple((k, conn.read(k, MISSING)) for k in DOMAIN)

    def close(self):
        self.tm.between = None
        try:
            self.tm.abort()
            self.conn.close()
            self.db.close()
        except Exception:
            pass


def reshape_ops(total):
    yield 'condense', True
    yield 'condense', False
    for mcs in (2, 5000):
        for cond in (False, True):
            for trans in (True, False):
                yield 'resize', total + 3, mcs, cond, trans


def placed(conn):
    return [contents(g) for g in conn.container.groups]


def count_moves(a, b):
    """How many ids changed their place between two durable states."""
    ids = {k for g in a + b for k, _ in g}
    where = lambda groups, k: sorted(repr(v) for g in groups for kk, v in g
                                     if kk == k)
    return sum(where(a, k) != where(b, k) for k in ids)


def crash_case(case):
    """Every durable state on the way: a crash after any commit."""
    cfg, op = case
    w = World(cfg)
    try:
        start = w.fresh()
        group_start = placed(w.conn)
        err = None
        try:
            w.act(op)
        except Exception as e:
            err = e
        if err is not None and not (cfg.get('strict')
                                    and isinstance(err, REFUSED)):
            return f'{op} raised {err!r}'
        w.tm.abort()
        states = 0
        last = group_start
        for tid in w.tids():
            states += 1
            got = w.at(tid)
            if got != start:
                return f'{op}: after commit {states} a new process reads ' \
                       f'{got}, stored were {start}'
            conn = w.db.open(transaction_manager=TransactionManager(), at=tid)
            now = placed(conn)
            conn.close()
            if sum(map(len, now)) - sum(map(len, last)) not in (-1, 0, 1):
                return f'{op}: commit {states} moved several objects at ' \
                       f'once: {last} to {now}'
            last = now
        if w.fresh() != start:
            return f'{op}: a new connection reads {w.fresh()}, not {start}'
        if err is None:
            if last != placed(w.conn):
                return f'{op}: durable {last}, in memory {placed(w.conn)}'
        return None, states + 1, states
    finally:
        w.close()


def fault_case(case):
    """Every commit of the operation refused by the storage, in turn."""
    cfg, op = case
    at = n = 0
    while True:
        at += 1
        w = World(cfg)
        try:
            start = w.fresh()
            w.storage.fail_at = at
            err = None
            try:
                w.act(op)
            except Exception as e:
                err = e
            if w.storage.commits < at:
                return None, n + 1, n        # no such commit: enumeration ends
            n += 1
            if not isinstance(err, Refuse):
                return f'{op}: commit {at} failed, the operation ' \
                       f'{"succeeded" if err is None else repr(err)}'
            w.tm.abort()
            for who, got in (('a new connection', w.fresh()),
                             ('the connection', w.reads(w.conn))):
                if got != start:
                    return f'{op}: commit {at} failed, then {who} reads ' \
                           f'{got}, stored were {start}'
            w.storage.fail_at = None
            again = ('condense', True) if op[0] == 'condense' else op
            if op[0] == 'resize':
                again = ('resize', w.conn.container.size + 3, *op[2:])
            try:
                w.act(again)
            except Exception as e:
                if not (cfg.get('strict') and isinstance(e, REFUSED)):
                    return f'{op}: commit {at} failed, repeating raised {e!r}'
            if w.fresh() != start:
                return f'{op}: repeated after commit {at} failed, reads ' \
                       f'{w.fresh()}, stored were {start}'
        finally:
            w.close()
        if at > 60:
            return f'{op} does not end committing'


def writer_case(case):
    """Another connection changes an id between any two transactions of the
    operation: its committed change survives and nothing else changes."""
    cfg, op, change = case
    at = n = 0
    while True:
        at += 1
        w = World(cfg)
        other = None
        try:
            other = w.db.open(transaction_manager=TransactionManager())
            want = dict(w.fresh())
            done = []

            def between(count):
                if count == at and not done:
                    done.append(1)
                    if change[0] == 'update':
                        other.update(change[1], change[2])
                    else:
                        other.delete(change[1])
            w.tm.between = between
            err = None
            try:
                w.act(op)
            except Exception as e:
                err = e
            w.tm.between = None
            w.tm.abort()
            if not done:
                return None, n + 1, n
            n += 1
            if err is not None and not isinstance(err, ConflictError):
                return f'{op} with {change} before transaction {at} raised ' \
                       f'{err!r}'
            if change[0] == 'update':
                want[change[1]] = change[2]
            else:
                want[change[1]] = MISSING
            for who, got in (('a new connection', dict(w.fresh())),
                             ('the connection', dict(w.reads(w.conn)))):
                if got != want:
                    return f'{op} with {change} before transaction {at} ' \
                           f'({err!r}): {who} reads {got}, expected {want}'
        finally:
            if other is not None:
                other.close()
            w.close()
        if at > 80:
            return f'{op} does not end beginning transactions'


def c07(ctx):
    """A real database: every commit of every resize and condense is a crash
    point (the state a new process would find is read back), a fault point (the
    storage refuses it) and a scheduling point (another connection writes)."""
    t = ctx.thorough
    cfgs = [{'groups': s, 'primary': 0, 'strict': st}
            for s in shapes(2, KEYS if t else KEYS[:2]) for st in (False, True)]
    cfgs += [{'groups': s, 'primary': 1, 'strict': False}
             for s in ((('a',), ('b',)), (('a', 'b'), ('c',)))]
    cfgs += [{'groups': s, 'primary': 0, 'strict': st, 'sizes': z}
             for s in ((('a',), ('b',), ('c',)), (('a',), ('a', 'b'), ('b',)),
                       (('c',), ('a',), ('b', 'a')))
             for st, z in ((False, (9, 9, 9)), (True, (2, 1)), (True, (1,)))
             if not st or all(len(x) <= 1 for x in s)]
    if t:
        cfgs += [{'groups': s, 'primary': p}
                 for s in shapes(3, KEYS[:2]) for p in (0,)]
    todo = [(c, op) for c in cfgs
            for op in reshape_ops(sum(map(len, c['groups'])))]

    def crash(c, part):
        cases(c, 'crash', todo[part::8], crash_case)

    def fault(c, part):
        cases(c, 'fault', todo[part::8], fault_case)

    def writer(c, part):
        changes = [('update', 'a', 'W'), ('delete', 'b'), ('update', 'd', 0)]
        if t:
            changes += [('delete', 'a'), ('update', 'b', '')]
        space = [(cfg, op, ch) for cfg, op in todo for ch in changes
                 if cfg['primary'] == 0 and not cfg.get('strict')]
        cases(c, 'writer', space[part::8], writer_case)
    parallel(ctx, [(f, i) for f in (crash, fault, writer) for i in range(8)])


CHECKS = {'C05': c05, 'C06': c06, 'C07': c07}
DRIVERS = {d.name: d for d in (Crud, Reshape)}
CASES = {'crash': crash_case, 'fault': fault_case, 'writer': writer_case}
