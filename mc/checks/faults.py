"""The storage fails at the n-th call, once or from then on, for every n: the
call that is refused reports it and changes nothing, and what follows works as
if it had not happened. Part of C10, C11 and C30."""
from ZODB.MappingStorage import MappingStorage

from mc import maps
from mc.checks import connection as c
from mc.checks.scale import sized

from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

CALLS = ('sync', 'loadBefore', 'load', 'tpc_begin', 'store', 'new_oid',
         'checkCurrentSerialInTransaction', 'tpc_vote')
STARTS = ((), (c.A,), (c.A, c.B))
CHANGES = (('create', 'a', 5), ('create', 'z', ''), ('update', 'a', 6),
           ('update', 'b', None), ('delete', 'a'), ('read', 'a'))
HOW = ('once', 'outage')


class Failing(MappingStorage):
    """Fails at the ``at``-th call from now, once or from then on."""
    at = reached = 0
    outage = False

    def arm(self, at, how):
        self.at, self.reached, self.outage = at, 0, how == 'outage'

    def disarm(self):
        hit, self.at = self.at and self.reached >= self.at, 0
        return hit

    def call(self):
        if self.at:
            self.reached += 1
            if self.reached == self.at or (
                    self.outage and self.reached > self.at):
                raise c.Injected('injected')

    def sync(self, force=True):
        self.call()


def failing(name):
    def method(self, *args, **kwargs):
        self.call()
        return getattr(MappingStorage, name)(self, *args, **kwargs)
    return method


for _name in CALLS[1:]:
    if hasattr(MappingStorage, _name):
        setattr(Failing, _name, failing(_name))


class World(c.Base):
    """A database whose storage fails, and the connection under test, whose
    cache is empty or full."""

    def __init__(self, start, kind, warm):
        self.storage, self.kind = Failing(), kind
        self.db = ContainerDb(self.storage)
        setup = self.db.open(TransactionManager())
        with setup.transaction_manager:
            setup.root.container = c.container({'groups': (start, ())})
        setup.close()
        self.tm = c.MANAGERS[kind]()
        self.conn = self.db.open(transaction_manager=self.tm)
        c.look(self.conn, KEYS)
        if not warm:
            self.conn.cacheMinimize()


KEYS = ('a', 'b', 'z')


def change(conn, view, op):
    """Apply an operation; the state that is expected then."""
    if op[0] == 'create' and maps.get(view, op[1]) is not maps.MISSING:
        try:
            conn.create(*op[1:])
        except c.ObjectOverwriteError:
            return view
        raise AssertionError(f'{op} was not refused')
    getattr(conn, op[0])(*op[1:])
    if op[0] == 'read':
        return view
    return maps.drop(view, op[1]) if op[0] == 'delete' \
        else maps.put(view, *op[1:])


def differs(w, durable, own=None):
    own = durable if own is None else own
    for who, got, want in (('a new connection', w.durable(KEYS), durable),
                           ('the connection', c.look(w.conn, KEYS), own)):
        if not c.equal(got, sorted(want)):
            return f'{who} reads {got}, not {want}'
    return None


def after(w, durable, manual=False):
    """Two more changes, which work and are durable."""
    for op in (('update', 'b', 8), ('update', 'z', 9), ('delete', 'a')):
        if w.conn.autocommit is not (not manual):
            return f'then autocommit is {w.conn.autocommit}'
        durable = change(w.conn, durable, op)
        if manual:
            w.conn.transaction_manager.commit()
        bad = differs(w, durable)
        if bad:
            return f'then, after {op}, {bad}'
    return None


@sized('C10', 'failing storage', range(1, 24), range(1, 30),
       [(s, k, h, warm) for s in STARTS for k in ('single', 'thread')
        for h in HOW for warm in (False, True)])
def autocommitted(n, kind):
    start, tm, how, warm = kind
    done = 0
    for op in CHANGES:
        for manual in (False, True):
            w = World(start, tm, warm)
            try:
                if manual:
                    w.conn.autocommit = False
                view, error = start, None
                w.storage.arm(n, how)
                try:
                    view = change(w.conn, start, op)
                    if manual:
                        w.conn.transaction_manager.commit()
                except c.Injected as e:
                    error = e
                finally:
                    hit = w.storage.disarm()
                if manual and error:
                    w.conn.transaction_manager.abort()
                if hit and not error and view != start:
                    return f'{op}: a failure of the storage was not reported'
                bad = differs(w, start if error else view) or after(
                    w, start if error else view, manual)
                if bad:
                    return f'{op} failing at call {n} ({how}, manual ' \
                           f'{manual}): {bad}'
                done += 1
            finally:
                w.close()
    return None, done, done


@sized('C11', 'failing storage', range(1, 28), range(1, 34),
       [(s, k, h, warm) for s in STARTS for k in ('single', 'thread')
        for h in HOW for warm in (False, True)])
def blocks(n, kind):
    start, tm, how, warm = kind
    done = 0
    for first in CHANGES:
        for second in (('update', 'b', 7), ('delete', 'z')):
            w = World(start, tm, warm)
            try:
                view, error = start, None
                w.storage.arm(n, how)
                try:
                    with w.conn:
                        view = change(w.conn, view, first)
                        view = change(w.conn, view, second)
                except c.Injected as e:
                    error = e
                finally:
                    hit = w.storage.disarm()
                if hit and not error and view != start:
                    return f'{first}, {second}: a failure of the storage ' \
                           'was not reported'
                bad = differs(w, start if error else view) or after(
                    w, start if error else view)
                if bad:
                    return f'{first}, {second} failing at call {n} ({how}): ' \
                           f'{bad}'
                done += 1
            finally:
                w.close()
    return None, done, done


@sized('C10', 'failing to open', range(1, 5), range(1, 10),
       [(s, k, h) for s in STARTS for k in ('own', 'shared', 'thread')
        for h in HOW])
def opening(n, kind):
    """A connection that cannot be opened leaves nothing behind."""
    start, which, how = kind
    w = World(start, 'single', True)
    try:
        if which == 'own':
            tm = None
        elif which == 'thread':
            tm = ThreadTransactionManager()
        else:
            tm = w.tm
        w.storage.arm(n, how)
        try:
            made = w.db.open(transaction_manager=tm)
        except c.Injected:
            made = None
        finally:
            w.storage.disarm()
        bad = differs(w, start) or after(w, start)
        if bad:
            return bad
        made = made or w.db.open(transaction_manager=tm)
        want = w.durable(KEYS)
        made.transaction_manager.begin()
        if not c.equal(c.look(made, KEYS), want):
            return f'opened again, it reads {c.look(made, KEYS)}'
        made.update('b', 'late')
        want = maps.put(want, 'b', 'late')
        if not c.equal(w.durable(KEYS), want):
            return f'opened again, what it writes is {w.durable(KEYS)}'
        made.transaction_manager.abort()
        if which != 'shared':
            made.close()
        return None
    finally:
        w.close()


# ---------------------------------------------------------------------- legacy
LEGACY = (('create', 'a', 5), ('update', 'b', None), ('delete', 'a'),
          ('delete', 'none'), ('read', 'a'), ('expand', 2), ('setup',))


def legacy_act(conn, view, op):
    what = op[0]
    if what == 'delete' and maps.get(view, op[1]) is maps.MISSING:
        try:
            conn.delete(op[1])
        except KeyError:
            return view
        raise AssertionError(f'{op} was not refused')
    if what == 'expand':
        conn.expand_containers(op[1])
    elif what == 'setup':
        conn.setup()
    else:
        getattr(conn, what)(*op[1:])
    if what in ('create', 'update'):
        return maps.put(view, *op[1:])
    return maps.drop(view, op[1]) if what == 'delete' else view


@sized('C30', 'failing storage', range(1, 20), range(1, 26),
       [(s, k, h, warm) for s in STARTS for k in ('plain', 'thread')
        for h in HOW for warm in (False, True)])
def legacy(n, kind):
    from mc.checks import legacy as lg
    start, tm, how, warm = kind
    done = 0
    for ops in [(op,) for op in LEGACY] + [
            (('update', 'b', 1), op) for op in LEGACY if op != ('setup',)]:
        storage = Failing()
        db = lg.Database(storage)
        conn = db.open(transaction_manager=lg.MANAGERS[tm]())
        conns = [conn]

        def durable(late):
            conns.append(db.open(transaction_manager=lg.MANAGERS[tm]()))
            got = conns[-1]
            return {k: got.read(k) for k in KEYS}, \
                got.container.size, got.num_containers()

        def differs(view, parts):
            for who, got in (('a new connection', durable(True)),
                             ('the connection', (
                                 {k: conn.read(k) for k in KEYS},
                                 conn.size, conn.num_containers()))):
                want = {k: dict(view).get(k) for k in KEYS}, len(view), parts
                if got != want:
                    return f'{who} has {got}, not {want}'
            return None
        try:
            if ops != (('setup',),):
                conn.setup()
                for k, v in start:
                    conn.create(k, v)
            view, error = start, None
            if not warm:
                conn.cacheMinimize()
            storage.arm(n, how)
            try:
                if len(ops) == 1:
                    if ops[0] in (('read', 'a'), ('setup',)) or n % 2:
                        view = legacy_act(conn, view, ops[0])
                    else:
                        conn.auto_transaction = False
                        view = legacy_act(conn, view, ops[0])
                        conn.transaction_manager.commit()
                else:
                    with conn:
                        for op in ops:
                            if op[0] == 'expand':
                                conn.container.expand_size(3)
                            else:
                                view = legacy_act(conn, view, op)
            except c.Injected as e:
                error = e
            finally:
                hit = storage.disarm()
            if hit and not error and view != start:
                return f'{ops}: a failure of the storage was not reported'
            if not conn.auto_transaction:
                if len(ops) > 1 or ops[0][0] in ('read', 'setup', 'expand') \
                        or n % 2:
                    return f'{ops} failing at call {n} ({how}): no autocommit'
                conn.transaction_manager.abort()
                conn.auto_transaction = True
            if ops == (('setup',),):
                conn.setup()
                view = ()
            elif error:
                view = start
            parts = 3 if not error and 'expand' in {op[0] for op in ops} else 1
            bad = differs(view, parts)
            for op in (('update', 'b', 8), ('create', 'z', 9), ('expand', 1)):
                if not bad:
                    view = legacy_act(conn, view, op)
                    parts += op[0] == 'expand'
                    bad = differs(view, parts)
            if bad:
                return f'{ops} failing at call {n} ({how}): {bad}'
            done += 1
        finally:
            storage.disarm()
            for each in conns:
                each.transaction_manager.abort()
            db.close()
    return None, done, done
