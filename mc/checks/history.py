"""Connections to the past: C31."""
import os

from transaction import TransactionManager as Plain
from ZODB.DemoStorage import DemoStorage
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ReadOnlyError, ReadOnlyHistoryError

from mc import maps
from mc.checks.lifecycle import Scratch
from mc.core import Driver, explore, parallel, show
from mc.maps import MISSING

from citrine.cluster_tools.dbmodule.dbmodule import DbModule
from citrine.connection.group_connection import GroupReadConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.transaction import TransactionManager

KEYS = ('a', 'b')
KINDS = ('memory', 'demo', 'file', 'module')


class World:
    def __init__(self, kind):
        self.kind, self.scratch = kind, None
        self.module = None
        if kind in ('file', 'module'):
            self.scratch = Scratch()
            self.path = self.scratch.__enter__()
        if kind == 'module':
            self.module = DbModule.create(self.path, 'm')
        self.start()
        self.conn = self.db.open(TransactionManager())
        self.tids = [self.db.lastTransaction()]
        self.held = [self.past(at=self.tids[0])]

    def start(self):
        if self.kind == 'memory':
            self.db = ContainerDb(MappingStorage())
        elif self.kind == 'demo':
            self.db = ContainerDb(DemoStorage(base=MappingStorage(),
                                              changes=MappingStorage()))
        elif self.kind == 'file':
            self.db = ContainerDb(FileStorage(os.path.join(self.path, 'db')))
        else:
            self.db = self.module.db

    def past(self, **when):
        return (self.module or self.db).open(TransactionManager(), **when)

    def noted(self):
        """Keep a connection to every state there was."""
        tid = self.db.lastTransaction()
        new = tid != self.tids[-1]
        if new:
            self.tids.append(tid)
            self.held.append(self.past(at=tid))
        return new

    def again(self):
        for c in [self.conn, *self.held]:
            c.transaction_manager.abort()
            c.close()
        self.held = []
        if self.kind in ('file', 'module'):
            self.db.close()
            if self.module:
                self.module = DbModule(self.module.path)
            self.start()
        self.conn = self.db.open(TransactionManager())
        self.held = [self.past(at=t) for t in self.tids]

    def close(self):
        try:
            for c in [self.conn, *self.held]:
                c.transaction_manager.abort()
                c.close()
            self.db.close()
        finally:
            if self.scratch:
                self.scratch.__exit__()


class Past(Driver):
    """Model: what every transaction committed, in their order."""
    name = 'past'
    configs = tuple({'kind': k} for k in KINDS)

    def build(self, cfg):
        return World(cfg['kind'])

    def dispose(self, cfg, w):
        w.close()

    def initial(self, cfg):
        return (),

    def ops(self, cfg, model):
        for k in KEYS:
            yield 'create', k, 1
            yield 'update', k, len(model)
            yield 'delete', k
        yield 'both', len(model)
        yield 'failed', len(model)
        yield 'resize',
        yield 'empty',
        yield 'again',

    def apply(self, cfg, w, op):
        what, conn = op[0], w.conn
        if what in ('create', 'update', 'delete'):
            try:
                return getattr(conn, what)(*op[1:])
            finally:
                w.new = w.noted()
        if what == 'again':
            w.again()
            return
        conn.__enter__()
        if what in ('both', 'failed'):
            conn.update('a', op[1])
            conn.update('b', op[1])
        elif what == 'resize':
            conn.container.resize(conn.container.capacity + 1000)
        if what == 'failed':
            e = ValueError('harness')
            conn.__exit__(ValueError, e, None)
        else:
            conn.__exit__(None, None, None)
        w.new = w.noted()

    def step(self, cfg, model, op, out):
        what, (kind, val) = op[0], out
        bad = f'{op} on {model} {show(out)}'
        now = model[-1]
        if what == 'create' and maps.get(now, op[1]) is not MISSING:
            ok = kind == 'exc' and isinstance(val, ObjectOverwriteError)
            return model, None if ok else bad
        if kind == 'exc':
            return model, bad
        if what in ('create', 'update'):
            return model + (maps.put(now, op[1], op[2]),), None
        if what == 'delete':
            if maps.get(now, op[1]) is MISSING:
                return model, None
            return model + (maps.drop(now, op[1]),), None
        if what == 'both':
            return model + (maps.put(maps.put(now, 'a', op[1]),
                                     'b', op[1]),), None
        if what == 'resize':
            return model + (now,), None
        return model, None

    def observe(self, cfg, w, model):
        # transactions that changed nothing may have been recorded or not
        states = []
        for state in model:
            if not states or states[-1] != state:
                states.append(state)
        mine = []
        for tid, conn in zip(w.tids, w.held):
            got = self.look(conn)
            if not mine or mine[-1] != got:
                mine.append(got)
        if mine != states:
            return f'connections of the past read {mine}: {model}'
        held = [self.look(c) for c in w.held]
        for i, tid in enumerate(w.tids):
            for when in ({'at': tid}, {'before': tid}) if i else ({'at': tid},):
                want = held[i] if 'at' in when else held[i - 1]
                err = self.one(w, when, want)
                if err:
                    return f'{when} (transaction {i}): {err}, {model}'
        if self.look(w.conn) != model[-1]:
            return f'the present reads {self.look(w.conn)}: {model}'
        try:
            w.past(at=w.tids[0], before=w.tids[-1])
            return 'opened both at and before'
        except ValueError:
            pass
        return None

    @staticmethod
    def look(conn):
        got = tuple((k, conn.read(k, MISSING)) for k in KEYS)
        return tuple((k, v) for k, v in got if v is not MISSING)

    def one(self, w, when, want):
        conn = w.past(**when)
        try:
            if self.look(conn) != want:
                return f'reads {self.look(conn)}'
            if conn.container.size != len(want):
                return f'has size {conn.container.size}'
            for what in (('create', 'c', 1), ('update', 'a', 8),
                         ('delete', 'a')):
                if what[0] == 'delete' and maps.get(want, 'a') is MISSING:
                    continue
                try:
                    getattr(conn, what[0])(*what[1:])
                    return f'{what} is possible'
                except (ReadOnlyHistoryError, ReadOnlyError):
                    pass
            try:
                with conn:
                    conn.update('b', 7)
                return 'a block is possible'
            except (ReadOnlyHistoryError, ReadOnlyError):
                pass
            conn.transaction_manager.begin()
            if self.look(conn) != want:
                return f'reads {self.look(conn)} after refused changes'
        finally:
            conn.transaction_manager.abort()
            conn.close()
        group = GroupReadConnection(
            [w.db], transaction_manager=Plain(),
            **{w.db.database_name: when})
        got = tuple((k, group.read(k)) for k in KEYS)
        got = tuple((k, v) for k, v in got if v is not None)
        for c in group.connections:
            c.close()
        return f'a group reads {got}' if got != want else None


def c31(ctx):
    """Every history of changes, blocks, resizes and restarts; after each step
    connections to every earlier moment, kept from then or opened now."""
    t = ctx.thorough

    def job(c, cfg, i, n):
        class Part(Past):
            def ops(self, cfg, model):
                every = list(super().ops(cfg, model))
                return [o for k, o in enumerate(every) if k % n == i] \
                    if model == self.initial(cfg) else every
        explore(c, Part(), 4 if t else 3, suffix=0, configs=[cfg])
    parallel(ctx, [(job, cfg, i, 6) for cfg in Past.configs
                   for i in range(6)])


CHECKS = {'C31': c31}
DRIVERS = {'past': Past}
CASES = {}
