"""Connections: C09 (reads and writes), C10 (autocommit), C11 (transaction
blocks), C12 (several connections at once)."""
from itertools import combinations_with_replacement, product

from ZODB.DemoStorage import DemoStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError, POSError

from mc import maps
from mc.checks import wide
from mc.core import Driver, explore, cases, parallel, show
from mc.maps import MISSING
from mc.sched import explore_schedules

from citrine.connection.container_connection import ContainerConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.collection import CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import Group, GroupCapacityError
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

REFUSED = (CollectionCapacityError, GroupCapacityError)
MANAGERS = {'default': lambda: None, 'thread': ThreadTransactionManager,
            'single': TransactionManager}
KEYS = ('a', 'b')


class Injected(POSError):
    """The storage fails to commit."""


class Storage(MappingStorage):
    refuse = False

    def tpc_vote(self, transaction):
        if self.refuse:
            self.refuse = False
            raise Injected('injected')
        return super().tpc_vote(transaction)


def container(cfg):
    """Groups with the given contents; the first is the primary."""
    groups = []
    for stored in cfg['groups']:
        g = Group.new(custom=dict(enumerate(cfg.get('sizes', (9, 9, 9)))))
        for k, v in stored:
            g.insert(k, v)
        groups.append(g)
    return Container(groups[0], tuple(groups), strict=cfg.get('strict', False))


class Base:
    """A database in memory, the connection under test and new ones."""

    def __init__(self, cfg):
        # like files, 'merging' storages merge concurrent changes of one tree
        self.storage = DemoStorage(
            base=MappingStorage(), changes=MappingStorage()) \
            if cfg.get('merging') else Storage()
        self.room = sum(cfg['sizes']) if cfg.get('strict') else None
        self.db = ContainerDb(self.storage)
        setup = self.db.open(TransactionManager())
        with setup.transaction_manager:
            setup.root.container = container(cfg)
        setup.close()
        if cfg.get('direct'):
            self.conn = ContainerConnection(
                self.db, transaction_manager=MANAGERS[cfg['tm']](),
                autocommit=False)
        else:
            self.conn = self.open(cfg.get('tm', 'default'))

    def open(self, kind='single'):
        return self.db.open(transaction_manager=MANAGERS[kind]())

    def durable(self, domain=KEYS):
        """What a connection that is opened now (or a new process) reads."""
        conn = self.open()
        try:
            return look(conn, domain)
        finally:
            conn.close()

    def close(self):
        try:
            self.conn.transaction_manager.abort()
            self.conn.close()
            self.db.close()
        except Exception:
            pass


def look(conn, domain=KEYS):
    return tuple((k, plain(conn.read(k, MISSING))) for k in domain
                 if not maps.same(conn.read(k, MISSING), MISSING))


def plain(value):
    """Mutable values as hashable ones, for the model."""
    return ('list', *value) if isinstance(value, list) else value


def equal(a, b):
    return maps.same_list(list(a), list(b))


# ------------------------------------------------------------------------- C09
class Reads(Driver):
    """A connection against what the groups of its container hold."""
    name = 'connection'
    domain = ('a', 'b', 'c')
    values = (1, 0, None)

    def build(self, cfg):
        return Base(cfg)

    def dispose(self, cfg, w):
        w.close()

    def initial(self, cfg):
        return tuple(tuple(sorted(g, key=lambda kv: kv[0]))
                     for g in cfg['groups'])

    def ops(self, cfg, model):
        for k in self.domain[:2]:
            for v in self.values:
                yield 'create', k, v
                yield 'update', k, v
        yield 'create', 'c', 'x'
        for k in self.domain:
            yield 'delete', k

    def apply(self, cfg, w, op):
        return getattr(w.conn, op[0])(*op[1:])

    @staticmethod
    def view(model):
        out = ()
        for g in model:
            for k, v in g:
                if maps.get(out, k) is MISSING:
                    out = maps.put(out, k, v)
        return out

    def step(self, cfg, model, op, out):
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        held = [maps.get(g, op[1]) for g in model
                if maps.get(g, op[1]) is not MISSING]
        if op[0] == 'delete':
            if kind == 'exc' or not isinstance(val, tuple) or \
                    not maps.same_list(list(val), held):
                return model, bad + f', removed {held!r}'
            return tuple(maps.drop(g, op[1]) for g in model), None
        if op[0] == 'create' and held:
            if kind == 'exc' and isinstance(val, ObjectOverwriteError):
                return model, None
            return model, bad + ', the id is taken'
        full = cfg.get('strict') and maps.get(model[0], op[1]) is MISSING \
            and len(model[0]) >= sum(cfg['sizes'])
        if kind == 'exc':
            if full and isinstance(val, REFUSED):
                return model, None
            return model, bad
        if full:
            return model, bad + ', the container is full'
        if op[0] == 'update' and not maps.same(val, held[0] if held else None):
            return model, bad + f', previous: {held!r}'
        return (maps.put(model[0], op[1], op[2]),) + model[1:], None

    def observe(self, cfg, w, model):
        view = self.view(model)
        for who, conn in (('the connection', w.conn), ('a new one', w.open())):
            err = self.compare(cfg, conn, model, view)
            if conn is not w.conn:
                conn.close()
            if err:
                return f'{who}: {err}'
        return None

    def compare(self, cfg, conn, model, view):
        marker = object()
        for k in self.domain:
            want = maps.get(view, k)
            got = conn.read(k, marker)
            if got is marker if want is not MISSING else got is not marker:
                return f'read({k!r}) gave {got!r}, stored {want!r}'
            if want is not MISSING and not maps.same(got, want):
                return f'read({k!r}) gave {got!r}, stored {want!r}'
            if conn.read(k) != (None if want is MISSING else want):
                return f'read({k!r}) without default gave {conn.read(k)!r}'
            try:
                got = conn[k]
            except KeyError:
                got = MISSING
            if not maps.same(got, want):
                return f'indexing {k!r} gave {got!r}, stored {want!r}'
        for sel in (('a',), ('a', 'b'), ('c', 'a'), ('b', 'b', 'c')):
            want = [maps.get(view, k) for k in sel]
            for form in (list, tuple, iter):
                try:
                    got = conn[form(sel)]
                except KeyError:
                    got = None
                if all(x is MISSING for x in want):
                    if got is not None:
                        return f'selecting {sel} gave {got!r}, none is stored'
                elif got is None or not maps.same_list(
                        list(got), [None if x is MISSING else x
                                    for x in want]):
                    return f'selecting {sel} gave {got!r}, stored {want!r}'
        try:
            return f'indexing 5 gave {conn[5]!r}'
        except (IndexError, TypeError):
            pass
        size = sum(map(len, model))
        cap = sum(cfg.get('sizes', (9, 9, 9)))
        for name, want in (('used', len(model[0])), ('capacity', cap),
                           ('usage', len(model[0]) / cap),
                           ('strict', cfg.get('strict', False))):
            got = getattr(conn, name)
            if got != want:
                return f'{name} is {got!r}, should be {want!r}'
            if getattr(conn.meta, name) != want:
                return f'meta.{name} is {getattr(conn.meta, name)!r}'
        if conn.container.size != size:
            return f'size is {conn.container.size}, stored {size}'
        if conn.status != conn.container.status:
            return f'status is {conn.status}'
        return None


def c09(ctx):
    """A connection to a real database over containers of one to three groups,
    strict and not: every history of creates, updates and deletes over three
    ids with falsy values; the results, the errors and every read, selection
    and count, from this connection and from a new one, after each step."""
    A, B, C = ('a', 1), ('b', 0), ('c', None)
    cfgs = [{'groups': g, 'tm': tm} for tm in ('default', 'single')
            for g in (((),), ((A, B),), ((A,), (B,)), ((), (('a', ''), C)),
                      ((A,), (('a', 2), B)), ((C,), (), (A, ('c', 3))))]
    cfgs += [{'groups': ((),), 'strict': True, 'sizes': (1,)},
             {'groups': ((A,), (B,)), 'strict': True, 'sizes': (2,)}]

    def job(c, cfg):
        explore(c, Reads(), depth=4 if ctx.thorough else 3,
                suffix=1 if ctx.thorough else 0, configs=[cfg])
    parallel(ctx, [(job, cfg) for cfg in cfgs] + wide.jobs(
        'connection', ctx.thorough, 8, ('every', 'values', 'lots')))


# -------------------------------------------------------------------- C10, C11
class Session(Driver):
    """Autocommit on and off, transaction blocks and refusing storages.

    The model is (durable, own view, mode): what a new connection reads, what
    this one reads, and whether changes are committed on their own ('auto'),
    by hand ('manual'), or at the end of a block ('block')."""
    name = 'session'
    blocks = True
    manual = True

    def build(self, cfg):
        return Base(cfg)

    def dispose(self, cfg, w):
        w.close()

    def initial(self, cfg):
        start = tuple(sorted(cfg['groups'][0], key=lambda kv: kv[0]))
        return start, start, 'manual' if cfg.get('direct') else 'auto'

    def ops(self, cfg, model):
        durable, view, mode = model
        yield 'create', 'a', 0
        yield 'create', 'b', 'x'
        yield 'update', 'a', 1
        yield 'update', 'b', 0
        yield 'delete', 'a'
        if cfg.get('lists'):
            yield 'append', 'a'
            if mode == 'auto':
                yield 'refuse', 'append', 'a'
        if mode == 'auto':
            yield 'refuse', 'create', 'a', 2
            yield 'refuse', 'update', 'a', 2
            yield 'refuse', 'delete', 'a'
            if self.manual:
                yield 'manual',
        if mode == 'manual':
            yield 'commit',
            yield 'abort',
            yield 'refuse commit',
            if view == durable:
                yield 'auto',
        if mode != 'block' and self.blocks and view == durable:
            yield 'enter',
        if mode != 'block' and view == durable and not cfg.get('direct'):
            yield 'reopen',
        if mode == 'block':
            yield 'exit',
            yield 'raise',
            yield 'refuse exit',
            yield 'commit',
            yield 'abort',

    def apply(self, cfg, w, op):
        conn, tm = w.conn, w.conn.transaction_manager
        what = op[0]
        if what in ('create', 'update', 'delete', 'append'):
            return self.change(conn, op)
        if what == 'refuse':
            w.storage.refuse = True
            try:
                return self.change(conn, op[1:])
            finally:
                w.storage.refuse = False
        if what == 'manual':
            tm.abort()              # as a failed transaction asks for
            conn.autocommit = False
            return conn.autocommit
        if what == 'auto':
            conn.autocommit = True
            return conn.autocommit
        if what == 'enter':
            return conn.__enter__() is not None
        if what == 'exit':
            return conn.__exit__(None, None, None)
        if what == 'raise':
            e = RuntimeError('in the block')
            return conn.__exit__(type(e), e, None)
        if what == 'refuse exit':
            w.storage.refuse = True
            try:
                conn.__exit__(None, None, None)
            except Injected:
                return 'refused'
            finally:
                w.storage.refuse = False
            return 'committed'
        if what == 'reopen':        # the pool may give the same object again
            tm.abort()
            conn.close()
            w.conn = w.open(cfg.get('tm', 'default'))
            return w.conn.autocommit
        if what == 'commit':
            return tm.commit()
        if what == 'abort':
            return tm.abort()
        if what == 'refuse commit':
            w.storage.refuse = True
            try:
                tm.commit()
            except Injected:
                return 'refused'
            finally:
                w.storage.refuse = False
                tm.abort()
            return 'committed'
        raise AssertionError(op)

    @staticmethod
    def change(conn, op):
        if op[0] != 'append':
            return plain(getattr(conn, op[0])(*op[1:]))
        # what was read is changed and written again
        value = conn.read(op[1])
        value = value if isinstance(value, list) else []
        value.append(1)
        conn.update(op[1], value)

    def step(self, cfg, model, op, out):
        durable, view, mode = model
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        what = op[0]
        if what == 'refuse':
            what, rest = op[1], op[2:]
        else:
            rest = op[1:]
        if what == 'append':
            old = maps.get(view, rest[0])
            old = old if isinstance(old, tuple) else ('list',)
            what, rest = 'update', (rest[0], old + (1,))
            val = maps.get(view, rest[0]) if kind == 'ok' else val
            val = None if val is MISSING else val
        if what in ('create', 'update', 'delete'):
            old = maps.get(view, rest[0])
            full = cfg.get('strict') and what != 'delete' \
                and old is MISSING and len(view) >= sum(cfg['sizes'])
            error = None
            if what == 'create' and old is not MISSING:
                error = ObjectOverwriteError
            elif full:
                error = REFUSED
            if error:
                ok = kind == 'exc' and isinstance(val, error)
                return model, None if ok else bad
            if what == 'delete':
                new = maps.drop(view, rest[0])
            else:
                new = maps.put(view, *rest)
            if op[0] == 'refuse' and (new != view or what != 'delete'):
                ok = kind == 'exc' and isinstance(val, Injected)
                return model, None if ok else bad
            if kind == 'exc':
                return model, bad
            if what == 'delete':
                want = () if old is MISSING else (old,)
            elif what == 'update':
                want = None if old is MISSING else old
            else:
                want = val
            if what == 'delete':
                val = tuple(map(plain, val))
            if not maps.same(val, want):
                return model, bad + f', expected {want!r}'
            return (new if mode == 'auto' else durable, new, mode), None
        if kind == 'exc':
            return model, bad
        if what == 'manual':
            return (durable, view, 'manual'), None if val is False else bad
        if what == 'auto':
            return (durable, view, 'auto'), None if val is True else bad
        if what == 'enter':
            return (durable, view, 'block'), None
        if what == 'reopen':
            return (durable, durable, 'auto'), None if val is True else bad
        if what == 'exit':
            return (view, view, 'auto'), None
        if what == 'raise':
            # the exception must go on to the caller of the block
            return (durable, durable, 'auto'), bad if val else None
        if what in ('refuse exit', 'refuse commit'):
            after = 'auto' if what == 'refuse exit' else mode
            if view != durable and val != 'refused':
                return model, bad
            # with nothing to store the storage may or may not be asked
            return (durable, durable, after), None
        if what == 'commit':
            return (view, view, mode), None
        if what == 'abort':
            return (durable, durable, mode), None
        raise AssertionError(op)

    def observe(self, cfg, w, model):
        durable, view, mode = model
        if not equal(w.durable(), durable):
            return f'a new connection reads {w.durable()}, model {model!r}'
        if not equal(look(w.conn), view):
            return f'the connection reads {look(w.conn)}, model {model!r}'
        if mode != 'block' and w.conn.autocommit != (mode == 'auto'):
            return f'autocommit is {w.conn.autocommit}, model {model!r}'
        return None


class Alone(Session):
    """Without transaction blocks."""
    name = 'autocommit'
    blocks = False


class Blocks(Session):
    """Transaction blocks with autocommit left on."""
    name = 'blocks'
    manual = False


A, B = ('a', 1), ('b', 0)
SESSIONS = [{'groups': (g,), 'tm': tm} for g in ((), (A,), (A, B))
            for tm in ('default', 'single', 'thread')]
SESSIONS += [{'groups': ((A,),), 'tm': tm, 'direct': True}
             for tm in ('default', 'single')]
SESSIONS += [{'groups': (g,), 'tm': 'default', 'lists': True}
             for g in ((), (B,))]
SESSIONS += [{'groups': ((),), 'strict': True, 'sizes': (1,), 'tm': 'default'},
             {'groups': ((B,),), 'strict': True, 'sizes': (1,),
              'tm': 'single'}]


class Strictness(Driver):
    """A container whose strictness is changed within transactions.

    Model: ((map, strict) committed, (map, strict) working, in a block)."""
    name = 'strictness'
    configs = tuple({'groups': ((),), 'sizes': (1,), 'strict': st, 'tm': tm}
                    for st in (False, True) for tm in MANAGERS)

    def build(self, cfg):
        w = Base(cfg)
        w.other = w.open()
        return w

    def dispose(self, cfg, w):
        w.close()

    def initial(self, cfg):
        return ((), cfg['strict']), ((), cfg['strict']), False

    def ops(self, cfg, model):
        for k in KEYS:
            yield 'create', k, 1
            yield 'update', k, 2
            yield 'delete', k
        if model[2]:
            yield 'leave',
            yield 'fail',
            for value in (True, False, 1, None, 'yes'):
                yield 'strict', value
        else:
            yield 'enter',

    def apply(self, cfg, w, op):
        conn = w.conn
        if op[0] == 'enter':
            conn.__enter__()
        elif op[0] == 'leave':
            conn.__exit__(None, None, None)
        elif op[0] == 'fail':
            return conn.__exit__(Injected, Injected('failed'), None)
        elif op[0] == 'strict':
            conn.strict = op[1]
        else:
            return getattr(conn, op[0])(*op[1:])

    def step(self, cfg, model, op, out):
        committed, (stored, strict), block = model
        what, (kind, val) = op[0], out
        bad = f'{op} on {model} {show(out)}'
        if what == 'strict' and not isinstance(op[1], bool):
            ok = kind == 'exc' and isinstance(val, TypeError)
            return model, None if ok else bad
        if what == 'create' and maps.get(stored, op[1]) is not MISSING:
            ok = kind == 'exc' and isinstance(val, ObjectOverwriteError)
            return model, None if ok else bad
        if what in ('create', 'update') and strict and stored and \
                maps.get(stored, op[1]) is MISSING:
            ok = kind == 'exc' and isinstance(val, REFUSED)
            return model, None if ok else bad
        if kind == 'exc' or what == 'fail' and val:
            return model, bad
        if what in ('create', 'update'):
            stored = maps.put(stored, op[1], op[2])
        elif what == 'delete':
            stored = maps.drop(stored, op[1])
        elif what == 'strict':
            strict = op[1]
        elif what == 'fail':
            stored, strict = committed
        block = what == 'enter' or block and what not in ('leave', 'fail')
        working = stored, strict
        return (committed if block else working, working, block), None

    def observe(self, cfg, w, model):
        w.other.transaction_manager.begin()
        late = w.open()
        try:
            for who, conn, (stored, strict) in (
                    ('it', w.conn, model[1]), ('another', w.other, model[0]),
                    ('a new one', late, model[0])):
                got = look(conn)
                if dict(got) != dict(stored):
                    return f'{who} reads {got}: {model}'
                if {conn.strict, conn.meta.strict,
                        conn.container.strict} != {strict}:
                    return f'{who} has strict {conn.strict}: {model}'
        finally:
            late.close()
        return None


def c10(ctx):
    """Every history of creates, updates, deletes, commits, aborts, switches of
    autocommit and commits refused by the storage: after each step, what a new
    connection reads (what a restarted process would) and what this one reads
    are both compared with the model, for every kind of transaction manager."""
    t = ctx.thorough

    def job(c, cfg):
        explore(c, Alone(), depth=6 if t else 4, suffix=2 if t else 1,
                configs=[cfg])

    def flag(c, cfg):
        explore(c, Strictness(), depth=6 if t else 5, suffix=1, configs=[cfg])
    parallel(ctx, [(job, cfg) for cfg in SESSIONS] +
             [(flag, cfg) for cfg in Strictness.configs])


def block_case(case):
    """A real ``with`` statement whose body is ``ops``; the body raises after
    ``stop`` of them (never if None), or the storage refuses the commit."""
    cfg, ops, stop, refuse = case
    w = Base(cfg)
    try:
        start = w.durable()
        view = start
        error = done = None
        try:
            with w.conn:
                for i, op in enumerate(ops):
                    if i == stop:
                        raise RuntimeError('in the block')
                    getattr(w.conn, op[0])(*op[1:])
                    view = maps.drop(view, op[1]) if op[0] == 'delete' \
                        else maps.put(view, op[1], op[2])
                    if not equal(look(w.conn), view):
                        return f'inside, the connection reads ' \
                               f'{look(w.conn)}, not {view}'
                    if not equal(w.durable(), start):
                        return f'inside, another connection reads ' \
                               f'{w.durable()}, not {start}'
                if stop == len(ops):
                    raise RuntimeError('in the block')
                w.storage.refuse = refuse
            done = True
        except Exception as e:
            error = e
        finally:
            w.storage.refuse = False
        if stop is not None and not (
                isinstance(error, RuntimeError)
                or isinstance(error, ObjectOverwriteError)):
            return f'the block swallowed its exception ({error!r})'
        want = view if done else start
        if error is not None and not isinstance(
                error, (RuntimeError, ObjectOverwriteError, Injected)):
            return f'the block raised {error!r}'
        if refuse and stop is None and view != start and done:
            return 'the refused commit was not reported'
        for who, got in (('a new connection', w.durable()),
                         ('the connection', look(w.conn))):
            if not equal(got, want):
                return f'after the block ({error!r}), {who} reads {got}, ' \
                       f'not {want}'
        # the connection goes on to work, and commits on its own again
        w.conn.update('z', 9)
        want = maps.put(want, 'z', 9)
        got = w.durable(KEYS + ('z',))
        if not equal(got, want):
            return f'a change after the block: {got}, not {want}'
        return None
    finally:
        w.close()


class Pair(Driver):
    """Two connections of one thread: blocks and changes of the one do not
    end, undo or commit those of the other. Each changes an id of its own that
    is kept in a collection of its own, so there are no conflicts.

    Model: for each connection (durable, seen by itself, inside a block)."""
    name = 'pair'
    configs = tuple({'groups': ((('a', 0), ('b', 0)),), 'tm': tm,
                     'merging': merging}
                    for tm in ('default', 'single', 'thread')
                    for merging in (True, False))

    def build(self, cfg):
        w = Base(cfg)
        w.conns = w.conn, w.open(cfg['tm'])
        return w

    def dispose(self, cfg, w):
        w.conns[1].transaction_manager.abort()
        w.conns[1].close()
        w.close()

    def initial(self, cfg):
        return (0, 0, False), (0, 0, False)

    def ops(self, cfg, model):
        for i, (durable, view, block) in enumerate(model):
            yield i, 'update', 1
            yield i, 'update', 2
            for what in ('exit', 'raise') if block else ('enter',):
                yield i, what

    def apply(self, cfg, w, op):
        conn, what = w.conns[op[0]], op[1]
        if what == 'enter':
            conn.__enter__()
        elif what == 'exit':
            conn.__exit__(None, None, None)
        elif what == 'raise':
            e = RuntimeError('in the block')
            return conn.__exit__(type(e), e, None)
        else:
            return conn.update(KEYS[op[0]], op[2])

    def step(self, cfg, model, op, out):
        bad = f'{op} on {model!r} {show(out)}'
        if out[0] == 'exc':
            return model, bad
        durable, view, block = model[op[0]]
        if op[1] == 'enter':
            block = True
        elif op[1] == 'update':
            if out[1] != view:
                return model, bad
            view = op[2]
            durable = durable if block else view
        else:
            if op[1] == 'exit':
                durable = view
            elif out[1]:
                return model, bad
            view, block = durable, False
        model = list(model)
        model[op[0]] = durable, view, block
        return tuple(model), None

    def observe(self, cfg, w, model):
        for i, (conn, part) in enumerate(zip(w.conns, model)):
            got = dict(w.durable()).get(KEYS[i])
            if got != part[0]:
                return f'a new connection reads {got!r} under {KEYS[i]}, ' \
                       f'model {model!r}'
            if conn.read(KEYS[i]) != part[1]:
                return f'connection {i} reads {conn.read(KEYS[i])!r}, ' \
                       f'model {model!r}'
        return None


def c11(ctx):
    """Every history of transaction blocks (left normally, by an exception, or
    with a commit the storage refuses, with commits and aborts inside), and
    every block body of up to three changes, stopped at every point."""
    t = ctx.thorough

    def job(c, cls, cfg):
        explore(c, cls(), depth=7 if t else 5, suffix=2 if t else 1,
                configs=[cfg])
    ops = [('create', 'a', 0), ('create', 'b', 2), ('update', 'a', 3),
           ('update', 'b', ''), ('delete', 'a'), ('delete', 'b')]
    bodies = [b for n in range(4) for b in product(ops, repeat=n)]
    space = [({'groups': (g,), 'tm': tm}, body, stop, refuse)
             for g, tm in (((A,), 'default'), ((A, B), 'single'),
                           ((), 'thread'))[:3 if t else 2]
             for body in bodies
             for stop in (None, *range(len(body) + 1))
             for refuse in (False, True) if stop is None or not refuse]

    def blocks(c, part):
        cases(c, 'block', space[part::8], block_case)
    jobs = [(blocks, i) for i in range(8)]
    jobs += [(job, Blocks, cfg) for cfg in SESSIONS]
    jobs += [(job, Pair, cfg) for cfg in Pair.configs]
    if t:
        jobs += [(job, Session, cfg) for cfg in SESSIONS]
    parallel(ctx, jobs)


# ------------------------------------------------------------------------- C12
class Log:
    """The committed state and its versions, kept by the observer."""

    def __init__(self, start):
        self.state = start
        self.version = {}
        self.commits = 0
        self.copies = False     # whether groups keep what has been moved


def wired(base, pause, log, box):
    """A transaction manager that is a scheduling point whenever it begins or
    commits, and notes the committed state its transaction starts from."""

    class Wired(base):
        def begin(self):
            pause('begin')
            res = super().begin()
            box['snapshot'] = (log.state, dict(log.version), log.commits)
            return res

        def commit(self):
            # the transaction itself may have been told to commit before
            log.commits += 'moving' in box
            pause('commit')
            res = super().commit()
            log.commits += 'moving' in box
            return res
    return Wired()


def actor(w, log, program, kind, problems, who):
    """Run the transactions of a program and judge each of them."""

    def run(pause):
        box = {}
        if kind == 'thread':
            # threaded managers leave the work to one plain manager a thread
            tm = ThreadTransactionManager()
            tm.manager = wired(type(tm.manager), pause, log, box)
        else:
            tm = wired(TransactionManager, pause, log, box)
        conn = w.db.open(transaction_manager=tm)
        for trans in program:
            err = transaction(conn, tm, trans, log, box, pause, w.room)
            if err:
                problems.append(f'{who} {trans}: {err}')
                break
        tm.abort()
        conn.close()
    return run


def transaction(conn, tm, trans, log, box, pause, room=None):
    state = {'view': None, 'written': {}, 'results': []}

    def move(op, **kwargs):
        box['moved'] = True
        if op[0] == 'resize':
            conn.container.resize(op[1], op[2], condense=op[3],
                                  transfer=op[4], **kwargs)
        else:
            conn.container.condense(op[1], **kwargs)

    def do(op):
        if op[0] in ('resize', 'condense'):
            return move(op)
        if state['view'] is None and trans[0] != 'auto':
            state['view'] = box['snapshot'][0]
        view = state['view']
        if op[0] == 'read':
            got = look(conn, DOMAIN12)
            if not equal(got, view):
                return f'reads {got}, its transaction should see {view}'
            return None
        kind, val = 'ok', None
        try:
            val = getattr(conn, op[0])(*op[1:])
        except (ObjectOverwriteError, *REFUSED) as e:
            kind, val = 'exc', e
        if trans[0] == 'auto':      # the snapshot was only taken by the call
            view = state['view'] = box['snapshot'][0]
        old = maps.get(view, op[1])
        if kind == 'exc':
            if op[0] == 'create' and old is not MISSING and \
                    isinstance(val, ObjectOverwriteError):
                return None
            if room is not None and old is MISSING and len(view) >= room and \
                    op[0] != 'delete' and isinstance(val, REFUSED):
                return None
            return f'{op} raised {val!r} with {view} stored'
        if op[0] == 'create' and old is not MISSING:
            return f'{op} succeeded with {view} stored'
        if op[0] == 'update' and not maps.same(
                val, None if old is MISSING else old):
            return f'{op} returned {val!r} with {view} stored'
        if op[0] == 'delete' and not maps.same(
                val[:1] if log.copies and isinstance(val, tuple) else val,
                () if old is MISSING else (old,)):
            return f'{op} returned {val!r} with {view} stored'
        if op[0] == 'delete':
            state['view'] = maps.drop(view, op[1])
            if old is not MISSING:
                state['written'][op[1]] = MISSING
        else:
            state['view'] = maps.put(view, op[1], op[2])
            state['written'][op[1]] = op[2]
        return None

    conflict = None
    try:
        if trans[0] == 'auto':
            err = do(trans[1])
            if err:
                return err
        elif trans[0] == 'manager':     # each step is a transaction
            box['moving'] = True
            box['snapshot'] = (log.state, dict(log.version), log.commits)
            move(trans[1], transaction_manager=tm)
        else:
            with conn:
                for op in trans[1]:
                    pause('op')
                    err = do(op)
                    if err:
                        return err
    except ConflictError as e:
        conflict = e
    box.pop('moving', None)
    moved = box.pop('moved', False)
    _, version, commits = box['snapshot']
    if conflict is not None:
        if log.commits == commits:
            return f'{conflict!r}, but nothing was committed meanwhile'
        return None
    for k, v in state['written'].items():
        if log.version.get(k, 0) != version.get(k, 0):
            return f'overwrote the change of {k!r} that was committed ' \
                   f'after its transaction began'
        log.state = maps.drop(log.state, k) if v is MISSING \
            else maps.put(log.state, k, v)
        log.version[k] = log.version.get(k, 0) + 1
    if state['written'] or moved:
        log.commits += 1
    return None


DOMAIN12 = ('a', 'b', 'c')


def concurrent_case(case):
    cfg, programs = case[:2]
    bound = case[2] if len(case) > 2 else None

    def make():
        w = Base(cfg)
        log = Log(w.durable(DOMAIN12))
        log.copies = len(cfg['groups']) > 1 or any(
            x in repr(programs) for x in ('resize', 'condense'))
        problems = []
        actors = [actor(w, log, p, cfg.get('kind', 'single'), problems,
                        f'connection {i}') for i, p in enumerate(programs)]

        def check():
            if problems:
                return problems[0]
            got = w.durable(DOMAIN12)
            if not equal(got, log.state):
                return f'in the end {got} is stored, the committed ' \
                       f'transactions give {log.state}'
            conn = w.open()
            size = conn.container.size
            cap = conn.container.capacity
            conn.close()
            if len(cfg['groups']) == 1 and size != len(log.state) and \
                    not log.copies:
                return f'in the end the size is {size}: {log.state}'
            if cfg.get('strict') and size > cap:
                return f'{size} objects in a strict container for {cap}'
            return None
        return actors, check, w.close
    return explore_schedules(make, bound)


def numbered(programs):
    """Give every write of a pair of programs a value of its own."""
    n = 10      # never the value that is stored already
    out = []
    for program in programs:
        p = []
        for kind, what in program:
            ops = []
            if kind == 'manager':
                p.append((kind, what))
                continue
            for op in (what,) if kind == 'auto' else what:
                n += 1
                ops.append(op + (n,) if op[0] in ('create', 'update') else op)
            p.append((kind, ops[0] if kind == 'auto' else tuple(ops)))
        out.append(tuple(p))
    return tuple(out)


def c12(ctx):
    """Two or three connections in threads of their own, under a scheduler that
    controls every begin, change and commit: all schedules of all pairs of
    small programs of autocommitted changes and transaction blocks. Judged
    against snapshot isolation with first-committer-wins."""
    t = ctx.thorough
    single = [('create', 'a'), ('create', 'b'), ('update', 'a'),
              ('update', 'b'), ('delete', 'a'), ('delete', 'b')]
    autos = [(('auto', op),) for op in single]
    blocks = [(('block', ops),) for ops in
              ((('read',), ('update', 'a')),
               (('update', 'a'), ('update', 'b')),
               (('delete', 'a'), ('create', 'c')),
               (('read',), ('create', 'b'), ('read',)))]
    longer = [(('auto', x), ('auto', y)) for x in single for y in
              (single if t else single[2:4])]
    starts = [{'groups': (g,), 'sizes': z}
              for g in ((), (A, B), (('c', 5),)) for z in ((9,), (9, 9, 9))]
    starts += [{'groups': ((A,), (B,)), 'sizes': (9,)}]
    space = []
    for cfg in starts:
        space += [(cfg, numbered(p)) for p in
                  combinations_with_replacement(autos + blocks, 2)]
    for cfg in (starts[0], starts[2]):
        space += [(cfg, numbered((x, y))) for x in longer for y in autos[:5]]
    if t:
        for cfg in (starts[0], starts[2]):
            space += [(cfg, numbered(p)) for p in
                      combinations_with_replacement(longer, 2)]
    for cfg in (starts[2],):
        space += [(cfg, numbered(p), None if t else 1) for p in
                  combinations_with_replacement(autos, 3)]
    if t:
        space += [(starts[2], numbered((b, x, y)), 3) for b in blocks
                  for x, y in product(autos, repeat=2)]
    space += [(dict(starts[2], kind='thread'), numbered(p)) for p in
              combinations_with_replacement(autos + blocks, 2)]
    for cfg in (starts[0], starts[2], starts[3]):
        space += [(dict(cfg, merging=True), numbered(p)) for p in
                  combinations_with_replacement(autos + blocks, 2)]
    tight = [{'groups': ((),), 'strict': True, 'sizes': (1,)},
             {'groups': ((A,),), 'strict': True, 'sizes': (2,)},
             {'groups': ((A,),), 'strict': True, 'sizes': (2,),
              'merging': True}]
    space += [(cfg, numbered(p)) for cfg in tight for p in
              combinations_with_replacement(autos + [
                  (('auto', ('create', 'c')),)], 2)]

    # groups that are moved while others change something
    moves = [('resize', 20, size, condense, transfer) for size in (9, 20)
             for condense in (False, True) for transfer in (True, False)]
    moves += [('condense', transfer) for transfer in (True, False)]
    movers = [((kind, (m,) if kind == 'block' else m),)
              for m in moves for kind in ('block', 'manager')
              if t or 20 not in m[2:]]
    movers += [(('block', (('read',), moves[0], ('create', 'c'))),)]
    if t:
        movers += [(('manager', x), ('block', (y,))) for x in moves[:2]
                   for y in moves[-2:]]
    for cfg in starts if t else starts[:5:2] + starts[-1:]:
        for merging in (False, True):
            if merging and not t and len(cfg['groups']) == 2:
                continue
            cfg = dict(cfg, merging=merging)
            space += [(cfg, numbered((m, x)), None if t else
                       2 if x in autos else 1)
                      for m in movers for x in autos + blocks + movers]

    def job(c, part):
        cases(c, 'concurrent', space[part::24], concurrent_case)
    parallel(ctx, [(job, i) for i in range(24)])


CHECKS = {'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12}
DRIVERS = {d.name: d for d in (Reads, Session, Alone, Blocks, Pair,
                              Strictness)}
CASES = {'block': block_case, 'concurrent': concurrent_case}
