"""Legacy databases: C30 (connections to a database with a DbContainer)."""
from itertools import combinations_with_replacement

from persistent.mapping import PersistentMapping
from ZODB import DB
from ZODB.DemoStorage import DemoStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError

from mc import maps
from mc.core import Driver, cases, explore, parallel, show
from mc.maps import MISSING
from mc.sched import explore_schedules

from citrine.connection.connection import CitrineConnection
from citrine.persistence import (CitrineThreadTransactionManager,
                                 CitrineTransactionManager, DbContainer)

IDS = ('a', 'b', 'ab')
MANAGERS = {'plain': CitrineTransactionManager,
            'thread': CitrineThreadTransactionManager}


class Database(DB):
    klass = CitrineConnection


class Stop(Exception):
    pass


class Legacy(Driver):
    """One connection that is used, one that looks on, and one that is opened
    afterwards.

    Model: (committed, working, containers, mode), mode being 'auto', 'manual'
    or 'block'; working differs from committed within a transaction."""
    name = 'legacy connection'
    configs = tuple({'tm': tm, 'made': made} for tm in MANAGERS
                    for made in ('setup', 'before'))

    def build(self, cfg):
        db = Database(MappingStorage())
        if cfg['made'] == 'before':
            plain = DB(db.storage)
            tm = CitrineTransactionManager()
            conn = plain.open(transaction_manager=tm)
            with tm:
                conn.root.container = DbContainer(
                    {0: PersistentMapping(), 1: {'a': 0}})
            conn.close()
            db = Database(db.storage)
        conn = db.open(transaction_manager=MANAGERS[cfg['tm']]())
        conn.setup()
        other = db.open(transaction_manager=MANAGERS[cfg['tm']]())
        return {'db': db, 'conn': conn, 'other': other}

    def dispose(self, cfg, w):
        w['conn'].transaction_manager.abort()
        w['other'].transaction_manager.abort()
        w['db'].close()

    def initial(self, cfg):
        if cfg['made'] == 'before':
            return (('a', 0),), (('a', 0),), 2, 'auto'
        return (), (), 1, 'auto'

    def ops(self, cfg, model):
        committed, working, n, mode = model
        for k in IDS:
            for v in (1, 0):
                yield 'create', k, v
            yield 'update', k, 2
            yield 'delete', k
        if mode == 'auto':
            yield 'enter',
            yield 'manual',
            yield 'elsewhere', 'a', 3
            if n < 5:
                yield 'expand', 1
                yield 'expand', 2
            yield 'expand', 0
            yield 'expand', -1
            yield 'setup',
        elif mode == 'block':
            yield 'leave',
            yield 'fail',
        else:
            yield 'commit',
            yield 'abort',
            if committed == working:
                yield 'auto',

    def apply(self, cfg, w, op):
        conn, what = w['conn'], op[0]
        if what in ('create', 'update'):
            return getattr(conn, what)(op[1], op[2])
        if what == 'delete':
            return conn.delete(op[1])
        if what == 'elsewhere':
            w['other'].transaction_manager.begin()
            w['other'].update(op[1], op[2])
            conn.transaction_manager.begin()
        elif what == 'expand':
            conn.expand_containers(op[1])
        elif what == 'setup':
            conn.setup()
        elif what == 'enter':
            conn.__enter__()
        elif what == 'leave':
            conn.__exit__(None, None, None)
        elif what == 'fail':
            e = Stop()
            if conn.__exit__(Stop, e, None):
                return 'swallowed'
        elif what in ('manual', 'auto'):
            conn.auto_transaction = what == 'auto'
        else:
            getattr(conn.transaction_manager, what)()

    def step(self, cfg, model, op, out):
        committed, working, n, mode = model
        what, bad = op[0], f'{op} on {model} {show(out)}'
        if what == 'delete' and maps.get(working, op[1]) is MISSING:
            ok = out[0] == 'exc' and isinstance(out[1], KeyError)
            return model, None if ok else bad
        if what == 'expand' and op[1] <= 0:
            ok = out[0] == 'exc' and isinstance(out[1], ValueError)
            return model, None if ok else bad
        if out[0] == 'exc' or out[1] == 'swallowed':
            return model, bad
        if what in ('create', 'update'):
            working = maps.put(working, op[1], op[2])
        elif what == 'delete':
            working = maps.drop(working, op[1])
        elif what == 'elsewhere':
            committed = working = maps.put(working, op[1], op[2])
        elif what == 'expand':
            n += op[1]
        elif what == 'enter':
            mode = 'block'
        elif what in ('manual', 'auto'):
            mode = what
        elif what in ('fail', 'abort'):
            working = committed
        elif what in ('leave', 'commit'):
            committed = working
        if what in ('leave', 'fail'):
            mode = 'auto'
        if mode == 'auto':
            committed = working
        return (committed, working, n, mode), None

    def observe(self, cfg, w, model):
        committed, working, n, mode = model
        w['other'].transaction_manager.begin()
        late = w['db'].open(transaction_manager=MANAGERS[cfg['tm']]())
        try:
            for who, c, want in (('it', w['conn'], working),
                                 ('another', w['other'], committed),
                                 ('a new one', late, committed)):
                values = [maps.get(want, k) for k in IDS]
                values = [None if v is MISSING else v for v in values]
                got = [[c.read(k) for k in IDS], [c[k] for k in IDS],
                       c[IDS], c[list(IDS)], c[(k for k in IDS)]]
                if any(g != values for g in got):
                    return f'{who} reads {got}, expected {values}: {model}'
                if [c.container.has(k) for k in IDS] != [
                        maps.get(want, k) is not MISSING for k in IDS]:
                    return f'{who} has other ids than {model}'
                if c.size != len(want) or c.num_containers() != n:
                    return f'{who} has size {c.size} in ' \
                           f'{c.num_containers()} containers: {model}'
                if c is w['conn'] and c.auto_transaction != (mode == 'auto'):
                    return f'auto_transaction is {c.auto_transaction}: {model}'
                for key in (slice(0, 1), slice('a', 'b')):
                    try:
                        return f'[{key}] gives {c[key]}'
                    except TypeError:
                        pass
        finally:
            late.transaction_manager.abort()
            late.close()
        return None


class Shared:
    """What has been committed, with the number of commits of each id."""

    def __init__(self, state):
        self.state, self.version, self.commits = dict(state), {}, 0

    def snapshot(self):
        return dict(self.state), dict(self.version), self.commits


def run_program(db, kind, program, log, problems, who):
    """One connection in a thread of its own: each transaction sees what was
    committed when it began and its own changes, and commits or conflicts."""

    def run(pause):
        box = {}
        base = MANAGERS[kind]() if kind == 'plain' else None

        def begin(real):
            pause('begin')
            res = real()
            box['seen'] = log.snapshot()
            return res

        def commit(real):
            pause('commit')
            return real()
        tm = MANAGERS[kind]()
        manager = tm.manager if base is None else tm
        for name, fn in (('begin', begin), ('commit', commit)):
            real = getattr(manager, name)
            setattr(manager, name, lambda fn=fn, real=real: fn(real))
        conn = db.open(transaction_manager=tm)
        for trans in program:
            err = run_transaction(conn, trans, log, box, pause)
            if err:
                problems.append(f'{who} {trans}: {err}')
                break
        tm.abort()
        conn.close()
    return run


def run_transaction(conn, trans, log, box, pause):
    written, conflict = {}, None

    def do(op):
        out = None
        try:
            if op[0] == 'expand':
                conn.container.expand_size(conn.num_containers() + op[1]) \
                    if len(trans) > 1 else conn.expand_containers(op[1])
            elif op[0] == 'delete':
                conn.delete(op[1])
            elif op[0] == 'read':
                out = {k: conn.read(k) for k in IDS if conn.container.has(k)}
            else:
                getattr(conn, op[0])(op[1], op[2])
        except KeyError as e:
            out = e
        view = {k: v for k, v in {**box['seen'][0], **written}.items()
                if v is not MISSING}
        if op[0] == 'read' and out != view:
            return f'reads {out}, its transaction should see {view}'
        if op[0] == 'delete':
            if (op[1] not in view) != isinstance(out, KeyError):
                return f'{op} with {view} stored: {out!r}'
            if op[1] in view:
                written[op[1]] = MISSING
        elif isinstance(out, KeyError):
            return f'{op} raised {out!r}'
        elif op[0] in ('create', 'update'):
            written[op[1]] = op[2]
        return None
    try:
        if len(trans) == 1:
            err = do(trans[0])
            if err:
                return err
        else:
            with conn:
                for op in trans:
                    pause('op')
                    err = do(op)
                    if err:
                        return err
    except ConflictError as e:
        conflict = e
    _, version, commits = box['seen']
    if conflict:
        return f'{conflict!r}, but nothing was committed meanwhile' \
            if log.commits == commits else None
    for k, v in written.items():
        if log.version.get(k) != version.get(k):
            return f'overwrote a change of {k!r} that was committed after it ' \
                   f'began'
        log.version[k] = log.version.get(k, 0) + 1
        log.state.pop(k, None)
        if v is not MISSING:
            log.state[k] = v
    if written or any(op[0] == 'expand' for op in trans):
        log.commits += 1
    return None


def together_case(case):
    kind, n, merging, programs = case

    def make():
        db = Database(DemoStorage(base=MappingStorage(),
                                  changes=MappingStorage())
                      if merging else MappingStorage())
        setup = db.open(transaction_manager=CitrineTransactionManager())
        setup.setup()
        if n > 1:
            setup.expand_containers(n - 1)
        setup.create('a', 0)
        setup.close()
        log, problems = Shared({'a': 0}), []
        actors = [run_program(db, kind, p, log, problems, f'connection {i}')
                  for i, p in enumerate(programs)]

        def check():
            if problems:
                return problems[0]
            conn = db.open(transaction_manager=CitrineTransactionManager())
            got = {k: conn.read(k) for k in IDS if conn.container.has(k)}
            size = conn.size
            conn.close()
            if got != log.state or size != len(got):
                return f'in the end {got} is stored (size {size}), the ' \
                       f'committed transactions give {log.state}'
            return None
        return actors, check, db.close
    return explore_schedules(make, None)


def together(t):
    single = [(('create', 'b', 1),), (('update', 'a', 2),), (('delete', 'a'),),
              (('update', 'ab', 3),), (('expand', 1),), (('expand', 2),)]
    blocks = [(('read',), ('update', 'a', 4)), (('delete', 'a'),
                                                ('create', 'b', 5)),
              (('read',), ('expand', 1), ('read',)),
              (('create', 'ab', 6), ('expand', 2)),
              (('expand', 1), ('update', 'a', 7), ('read',))]
    programs = [(x,) for x in single + blocks]
    if t:
        programs += [(x, y) for x in single for y in single]
    for kind in MANAGERS:
        for n in (1, 3):
            for merging in (False, True):
                for pair in combinations_with_replacement(programs, 2):
                    if t and len(pair[0]) + len(pair[1]) > 3:
                        continue
                    yield kind, n, merging, pair


def c30(ctx):
    """Every history of changes, blocks, manual transactions, expansions and
    changes of another connection."""
    from mc.checks import wide          # it needs this module
    t = ctx.thorough

    def job(c, cfg, i, n):
        class Part(Legacy):
            def ops(self, cfg, model):
                every = list(super().ops(cfg, model))
                return [o for k, o in enumerate(every) if k % n == i] \
                    if model == self.initial(cfg) else every
        explore(c, Part(), 4 if t else 3, suffix=1, configs=[cfg])
    space = list(together(t))

    def threads(c, i):
        cases(c, 'legacy connections at the same time', space[i::12],
              together_case)
    parallel(ctx, [(threads, i) for i in range(12)] + [(job, cfg, i, 4) for cfg in Legacy.configs
                   for i in range(4)] + wide.jobs(
                       'legacy', t, 8, ('every', 'values', 'lots')))


CHECKS = {'C30': c30}
DRIVERS = {'legacy connection': Legacy}
CASES = {'legacy connections at the same time': together_case}
