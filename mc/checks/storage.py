"""Collections, groups and their sizing: C01 C02 C03 C04 C08."""
import os
import shutil
import subprocess
import sys
import tempfile
from itertools import product
from functools import lru_cache
from math import ceil

from ZODB.DB import DB
from ZODB.MappingStorage import MappingStorage
from transaction import TransactionManager

from mc import maps
from mc.core import REPO, Driver, explore, cases, parallel, show
from mc.maps import MISSING

from citrine.storage.collection import Collection, CollectionCapacityError
from citrine.storage.group import Group, GroupCapacityError
from citrine.storage.container import Container
from citrine.storage import utils as sizing

VALUES = (1, 'x', 0, None, '', [])
REFUSED = (CollectionCapacityError, GroupCapacityError)


def freeze(value):
    return tuple(value) if isinstance(value, list) else value


# ------------------------------------------------------------------ C01 and C03
class MapDriver(Driver):
    """A collection or a group against a sorted association list."""
    domain = ('a', 'b', 'c')
    values = (1, 0, None)

    def initial(self, cfg):
        return ()

    def observe(self, cfg, impl, model):
        return maps.observe(impl, model, cfg.get('domain', self.domain),
                            ranges=cfg.get('ranges', True))

    def ops(self, cfg, model):
        dom = cfg.get('domain', self.domain)
        vals = cfg.get('values', self.values)
        for k in dom:
            for v in vals:
                yield 'insert', k, v
            yield 'insert_kw', k, vals[0]
            yield 'setdefault', k, vals[0]
            yield 'setdefault', k, vals[1]
            yield 'pop', k
            yield 'pop', k, 'dflt'
            yield 'pop_kw', k
        yield 'popitem',
        yield 'clear',
        yield 'update', ()
        yield 'update', ((dom[0], vals[1]),)
        yield 'update', tuple((k, vals[i % len(vals)])
                              for i, k in enumerate(dom))
        yield 'update', tuple((k, vals[-1 - i % len(vals)])
                              for i, k in enumerate(dom[1:]))

    def apply(self, cfg, impl, op):
        name, *args = op
        if name == 'update':
            return impl.update(dict(args[0]))
        if name == 'insert_kw':
            return impl.insert(key=args[0], value=args[1])
        if name == 'pop_kw':
            return impl.pop(key=args[0])
        return getattr(impl, name)(*args)

    def step(self, cfg, model, op, out):
        name, *args = op
        kind, val = out
        bad = f'{name}{tuple(args)} on {model!r} {show(out)}'
        if name in ('pop', 'pop_kw'):
            stored = maps.get(model, args[0])
            if stored is MISSING and len(args) == 1:
                return model, (None if kind == 'exc' and
                               isinstance(val, KeyError) else bad)
            want = args[1] if stored is MISSING else stored
            if kind != 'ok' or not maps.same(val, want):
                return model, bad
            return maps.drop(model, args[0]), None
        if name == 'popitem' and not model:
            return model, (None if kind == 'exc' and
                           isinstance(val, (KeyError, ValueError)) else bad)
        if kind == 'exc':
            return model, bad
        if name in ('insert', 'insert_kw'):
            new = maps.get(model, args[0]) is MISSING
            if bool(val) != new:
                return model, bad
            return (maps.put(model, *args) if new else model), None
        if name == 'setdefault':
            stored = maps.get(model, args[0])
            if stored is MISSING:
                return (maps.put(model, *args),
                        None if maps.same(val, args[1]) else bad)
            return model, None if maps.same(val, stored) else bad
        if name == 'popitem':
            if not isinstance(val, tuple) or len(val) != 2 or \
                    not any(maps.same(val[1], v) and val[0] == k
                            for k, v in model):
                return model, bad
            return maps.drop(model, val[0]), None
        if name == 'clear':
            return (), None
        if name == 'update':
            for k, v in args[0]:
                model = maps.put(model, k, v)
            return model, None
        raise AssertionError(name)


class CollectionMap(MapDriver):
    name = 'collection'
    configs = ({'strict': False}, {'strict': True},
               {'strict': False, 'domain': ('', 'é', 'zz'),
                'values': ('', 'v', False)})

    def build(self, cfg):
        return Collection(max_size=50, strict=cfg['strict'])


# 3 collections: a b c d fall on 1 2 0 1; the rest are long or non-ascii keys
KEYSETS = (('a', 'b', 'c'), ('a', 'd', 'g'),
           ('', 'é', 'https://x.example/@u/1'),
           ('a', 'ab', 'b'))


class GroupMap(MapDriver):
    name = 'group'
    configs = tuple({'n': n, 'domain': d, 'strict': s}
                    for n in (1, 2, 3, 5) for d in KEYSETS[:2]
                    for s in (False,)) + tuple(
        {'n': n, 'domain': d, 'strict': True}
        for n in (3, 7) for d in KEYSETS[2:])

    def build(self, cfg):
        if cfg.get('custom'):
            return Group.new(custom=dict(enumerate(cfg['custom'])),
                             strict=cfg['strict'])
        return Group.new(cfg['n'], 20, strict=cfg['strict'])


def _fill(obj, pairs):
    for k, v in pairs:
        obj.insert(k, v)
    return obj


def value_order(case):
    """byValue over every assignment of values to keys and every minimum."""
    n, vals, low = case
    pairs = [(k, v) for k, v in zip('abcde', vals) if v is not None]
    obj = _fill(Group.new(n, 10) if n else Collection(max_size=10), pairs)
    want = sorted(((v, k) for k, v in pairs if low is None or v >= low))
    got = list(obj.byValue() if low is None else obj.byValue(low))
    # (of equal values, the last key comes first)
    if got != want[::-1]:
        return f'byValue({low}) of {pairs} gave {got}'
    return None


def value_cases(groups, thorough):
    from itertools import product
    for n in groups:
        for vals in product((None, 0, 1, 2), repeat=5 if thorough else 4):
            for low in (None, 0, 1, 3):
                yield n, vals, low


def bulk(case):
    """Many keys: several buckets of the trees, every removal residue."""
    n, count, step, offset = case
    obj = Group.new(n, 5000) if n else Collection(max_size=5000)
    width = 7
    order = [f'k{(i * step + offset) % count:0{width}}' for i in range(count)]
    model = ()
    for i, k in enumerate(order):
        obj.insert(k, i)
    stored = {k: i for i, k in enumerate(order)}
    for k in order[offset::3]:
        if not maps.same(obj.pop(k), stored.pop(k)):
            return f'pop({k}) did not give the stored value'
    obj.update({k: -1 for k in order[::5]})
    stored.update({k: -1 for k in order[::5]})
    model = tuple(sorted(stored.items()))
    mid = order[count // 2]
    return maps.observe(obj, model, (order[0], mid, order[-1], 'zz'))


def bulk_cases(groups, thorough):
    for n in groups:
        for count in (1, 29, 61, 127) + ((251, 509) if thorough else ()):
            for step in (1, 7, 11):
                for offset in (0, 1, 2):
                    yield n, count, step, offset


PROGRAM = """
import os, sys
sys.path.insert(0, sys.argv[1])
from ZODB.DB import DB
from ZODB.FileStorage import FileStorage
from citrine.storage.group import Group
import transaction
path, n, mode = sys.argv[2], int(sys.argv[3]), sys.argv[4]
ids = ['', 'a', 'b', '\u00e9', '\u20ac' * 70, 'https://x.example/@u/1']
ids += ['x' * i + str(i) for i in range(1, 400, 13)]
ids += ['https://example.org/' + 'ab/' * i for i in range(0, 90, 7)]
db = DB(FileStorage(path))
conn = db.open()
if mode == 'write':
    conn.root.group = group = Group.new(n, 500)
    for i, k in enumerate(ids):
        group.insert(k, i)
    transaction.commit()
else:
    group = conn.root.group
    for i, k in enumerate(ids):
        if group.get(k) != i or not group.has_key(k) or \\
                group.insert(k, 'again'):
            print(f'{k!r}, written by another process, is not found')
            break
    else:
        if group.size != len(ids) or sorted(group.keys()) != sorted(ids):
            print('the ids written by another process are not listed')
        for i, k in enumerate(ids):
            group.pop(k)
transaction.abort()
conn.close()
db.close()
"""


def process_case(case):
    """What one process writes another finds, whatever its hash seed."""
    n, seeds = case
    folder = tempfile.mkdtemp(prefix='verif-')
    try:
        for mode, seed in zip(('write', 'read'), seeds):
            r = subprocess.run(
                [sys.executable, '-c', PROGRAM, REPO,
                 os.path.join(folder, 'x.fs'), str(n), mode],
                capture_output=True, text=True, cwd=folder,
                env={**os.environ, 'PYTHONHASHSEED': seed})
            if r.returncode or r.stdout:
                return f'{n} collections: {r.stdout}{r.stderr[-600:]}'
        return None
    finally:
        shutil.rmtree(folder)


def c01(ctx):
    """Collection against an ordered association list: every operation
    sequence to the depth, each replayed on a fresh collection, with all reads,
    views and key ranges compared after each step; byValue and multi-bucket
    sizes as complete finite input spaces."""
    def hist(c, i):
        explore(c, CollectionMap(), depth=4 if ctx.thorough else 3,
                suffix=2 if ctx.thorough else 1,
                configs=[CollectionMap.configs[i]])

    def inputs(c):
        cases(c, 'collection-by-value', value_cases((0,), ctx.thorough),
              value_order)
        cases(c, 'collection-bulk', bulk_cases((0,), ctx.thorough), bulk)
    parallel(ctx, [(hist, i) for i in range(len(CollectionMap.configs))]
             + [(inputs,)] + wide().jobs('collection', ctx.thorough))


def wide():
    from mc.checks import wide as module    # it needs the other checks, too
    return module


def c03(ctx):
    """Group against one association list for every number of collections:
    operation sequences to the depth with complete observation, plus complete
    spaces for byValue, bulk sizes and layouts."""
    def hist(c, cfg, depth, suffix):
        explore(c, GroupMap(), depth=depth, suffix=suffix, configs=[cfg])

    def inputs(c):
        cases(c, 'group-by-value', value_cases((1, 3, 5), ctx.thorough),
              value_order)
        cases(c, 'group-bulk', bulk_cases((1, 2, 3, 7), ctx.thorough), bulk)

    def processes(c):
        cases(c, 'group-processes', (
            (n, seeds) for n in ((1, 3, 7, 13) if ctx.thorough else (3, 7))
            for seeds in (('1', '2'), ('2', '0'))), process_case)
    jobs = [(hist, cfg, 3, 1 if not ctx.thorough else 2)
            for cfg in GroupMap.configs]
    if ctx.thorough:
        jobs += [(hist, {'n': n, 'domain': ('a', 'b', 'c', 'd'),
                         'strict': False, 'values': (1, 0)}, 4, 1)
                 for n in (1, 2, 3, 5)]
    parallel(ctx, jobs + [(inputs,), (processes,)]
             + wide().jobs('group', ctx.thorough))


# ------------------------------------------------------------------------- C02
@lru_cache(None)
def places(n, domain):
    """In which of n collections a key is kept, told by an empty group."""
    found = {}
    for k in domain:
        if n == 0:
            found[k] = 0
            continue
        probe = Group.new(n, 9)
        probe.insert(k, 1)
        found[k] = [c.size for c in probe.collections].index(1)
    return found


def given(cfg):
    return {} if cfg['strict'] is None else {'strict': cfg['strict']}


class Capacity(Driver):
    """Strict and non-strict capacity of a collection (n=0) or a group whose
    collections have the given sizes. The model knows in which collection a key
    is kept from a probe (an empty group of the same layout)."""
    name = 'capacity'
    domain = ('a', 'b', 'c', 'd')
    configs = tuple({'sizes': s, 'n': n, 'strict': st}
                    for n, s in ((0, (1,)), (0, (2,)), (0, (3,)),
                                 (1, (2,)), (2, (1, 1)), (2, (2, 1)),
                                 (3, (1, 1, 1)), (3, (1, 2, 1)),
                                 (3, (2, 2, 2)))
                    for st in (True, False))
    # the defaults
    configs += tuple({'sizes': s, 'n': n, 'strict': None}
                     for n, s in ((0, (1,)), (2, (1, 1)), (2, (2, 1))))
    # strict from now on, with one collection too full already: the group may
    # be full while the collection an id belongs to is not
    configs += tuple({'sizes': s, 'n': n, 'strict': True, 'fill': f}
                     for n, s, f in ((2, (1, 1), ('b', 'd')),
                                     (2, (1, 2), ('b', 'd', 'f')),
                                     (3, (1, 1, 1), ('a', 'd')),
                                     (3, (1, 1, 1), ('a', 'd', 'g'))))

    def build(self, cfg):
        impl = self.empty(cfg)
        if cfg.get('fill'):
            impl.strict = False
            _fill(impl, [(k, 7) for k in cfg['fill']])
            impl.strict = cfg['strict']
        return impl

    def empty(self, cfg):
        strict = given(cfg)
        if cfg['n'] == 0:
            return Collection(max_size=cfg['sizes'][0], **strict)
        if len(set(cfg['sizes'])) == 1:
            return Group.new(cfg['n'], cfg['sizes'][0], **strict)
        return Group.new(custom=dict(enumerate(cfg['sizes'])), **strict)

    def places(self, cfg):
        return places(cfg['n'], self.domain + ('f', 'g'))

    def initial(self, cfg):
        # a collection is strict by default, all others are not
        strict = cfg['strict'] if cfg['strict'] is not None else not cfg['n']
        return strict, tuple((k, 7) for k in cfg.get('fill', ()))

    def ops(self, cfg, model):
        dom = self.domain
        for k in dom:
            yield 'insert', k, 0
            yield 'setdefault', k, 1
        for k in dom[:2]:
            yield 'pop', k, 'dflt'
        yield 'update', ((dom[0], 2),)
        yield 'update', ((dom[0], 2), (dom[1], 2))
        yield 'update', ((dom[1], 2), (dom[2], 2), (dom[3], 2))
        yield 'update', tuple((k, 3) for k in dom)
        yield 'update', tuple((k, 3) for k in cfg.get('fill', ()))
        yield 'update', ()
        yield 'strict', True
        yield 'strict', False
        if cfg['n']:
            yield 'strict', 'yes'
            yield 'strict', None

    def apply(self, cfg, impl, op):
        name, *args = op
        if name == 'strict':
            impl.strict = args[0]
            return None
        if name == 'update':
            return impl.update(dict(args[0]))
        return getattr(impl, name)(*args)

    def step(self, cfg, model, op, out):
        strict, stored = model
        name, *args = op
        kind, val = out
        where, sizes = self.places(cfg), cfg['sizes']
        bad = f'{name}{tuple(args)} on {stored!r} (strict={strict}) {show(out)}'
        if name == 'strict' and not isinstance(args[0], bool):
            ok = kind == 'exc' and isinstance(val, TypeError)
            return model, None if ok else bad
        if name == 'strict':
            return (args[0], stored), bad if kind == 'exc' else None
        if name == 'pop':
            return ((strict, maps.drop(stored, args[0])),
                    bad if kind == 'exc' else None)
        pairs = args[0] if name == 'update' else ((args[0], args[1]),)
        new = [k for k, _ in pairs if maps.get(stored, k) is MISSING]
        over = [i for i, size in enumerate(sizes)
                if sum(where[k] == i for k in new)
                and sum(where[k] == i for k in maps.keys(stored) + new) > size]
        full = new and len(stored) + len(new) > sum(sizes)
        if strict and (over or full):
            if kind == 'ok' or not isinstance(val, REFUSED):
                return model, bad + ', expected a capacity error'
            return model, None            # and nothing has changed
        if kind == 'exc':
            return model, bad + ', nothing to refuse'
        for k, v in pairs:
            if name == 'update' or maps.get(stored, k) is MISSING:
                stored = maps.put(stored, k, v)
        return (strict, stored), None

    def observe(self, cfg, impl, model):
        strict, stored = model
        err = maps.observe(impl, stored, self.domain + ('f',), ranges=False)
        if not err and bool(impl.strict) != strict:
            err = f'strict is {impl.strict}, was set to {strict}'
        return err


class ContainerCapacity(Driver):
    """Strict and non-strict containers: writes go to the primary group."""
    name = 'container-capacity'
    domain = ('a', 'b', 'c', 'd')
    configs = tuple({'sizes': s, 'strict': st, 'old': old, 'via': via}
                    for s in ((1,), (2,), (1, 1), (1, 1, 1))
                    for st in (True, False) for old in ((), ('a', 'd'))
                    for via in ('init', 'new') if via == 'init' or not old)
    configs += tuple({'sizes': s, 'strict': None, 'old': (), 'via': via}
                     for s in ((1,), (1, 1)) for via in ('init', 'new'))

    def build(self, cfg):
        if cfg['via'] == 'new':
            return Container.new(len(cfg['sizes']) * cfg['sizes'][0],
                                 cfg['sizes'][0], **given(cfg))
        primary = Group.new(len(cfg['sizes']), cfg['sizes'][0])
        groups = (primary,)
        if cfg['old']:
            groups += (_fill(Group.new(3, 9), [(k, 9) for k in cfg['old']]),)
        return Container(primary, groups, **given(cfg))

    def initial(self, cfg):
        # the last part: the sizes of the collections of the primary group
        return (bool(cfg['strict']), (), tuple((k, 9) for k in cfg['old']),
                cfg['sizes'])

    def ops(self, cfg, model):
        strict, prim, old, sizes = model
        for k in self.domain:
            yield 'write', k, 0
            yield 'delete', k
        yield 'write', self.domain[0], 5
        yield 'strict', True
        yield 'strict', False
        yield 'strict', 1
        # only resizes that cannot meet a full collection
        for cap, most in ((4, 4), (6, 4)):
            for move in (True, False):
                twice = any(maps.get(old, k) is not MISSING
                            for k in maps.keys(prim))
                if sizes == cfg['sizes'] and cap >= len(prim) + len(old) \
                        and (move or not twice):
                    yield 'resize', cap, most, move

    def apply(self, cfg, impl, op):
        if op[0] == 'strict':
            impl.strict = op[1]
            return None
        if op[0] == 'resize':
            impl.resize(op[1], op[2], transfer=op[3])
            return tuple(c.max_size for c in impl.primary.collections)
        return getattr(impl, op[0])(*op[1:])

    def step(self, cfg, model, op, out):
        strict, prim, old, sizes = model
        kind, val = out
        bad = f'{op} on {model!r} {show(out)}'
        if op[0] == 'strict' and not isinstance(op[1], bool):
            ok = kind == 'exc' and isinstance(val, TypeError)
            return model, None if ok else bad
        if op[0] == 'strict':
            return (op[1], prim, old, sizes), bad if kind == 'exc' else None
        if kind == 'exc' and op[0] in ('delete', 'resize'):
            return model, bad
        if op[0] == 'resize':
            if sum(val) < op[1] or max(val) > op[2]:
                return model, bad + ': sizes of the new collections'
            # without transfer what was copied is also in the old primary
            if not op[3]:
                old = old + tuple(kv for kv in prim
                                  if maps.get(old, kv[0]) is MISSING)
            return (strict, prim, old, val), None
        if op[0] == 'delete':
            return ((strict, maps.drop(prim, op[1]), maps.drop(old, op[1]),
                     sizes), None)
        where = places(len(sizes), self.domain)
        new = maps.get(prim, op[1]) is MISSING
        load = sum(where[k] == where[op[1]] for k in maps.keys(prim))
        full = new and (load >= sizes[where[op[1]]]
                        or len(prim) >= sum(sizes))
        if strict and full:
            if kind == 'ok' or not isinstance(val, REFUSED):
                return model, bad + ', expected a capacity error'
            return model, None
        if kind == 'exc':
            return model, bad + ', nothing to refuse'
        return (strict, maps.put(prim, op[1], op[2]), old, sizes), None

    def observe(self, cfg, impl, model):
        strict, prim, old, sizes = model
        if bool(impl.strict) != strict:
            return f'strict is {impl.strict}'
        if impl.used != len(prim) or impl.size != len(prim) + len(old):
            return f'used {impl.used}, size {impl.size}: {model!r}'
        for k in self.domain:
            want = maps.get(prim, k)
            want = maps.get(old, k) if want is MISSING else want
            if not maps.same(impl.read(k, MISSING), want):
                return f'read({k!r}) gave {impl.read(k, MISSING)!r}, ' \
                       f'not {want!r}'
        return maps.observe(impl.primary, prim, self.domain, ranges=False)


def c02(ctx):
    """Strict and non-strict collections, groups and containers of one to three
    slots against a counting model: every operation sequence, including changes
    of strictness, with the complete contents compared after each step."""
    def hist(c, driver, cfg, depth):
        explore(c, driver(), depth=depth, suffix=1,
                configs=[cfg])
    depth = 5 if ctx.thorough else 3
    jobs = [(hist, Capacity, cfg, depth) for cfg in Capacity.configs]
    jobs += [(hist, ContainerCapacity, cfg, 6 if ctx.thorough else 4)
             for cfg in ContainerCapacity.configs]
    parallel(ctx, jobs)


# ------------------------------------------------------------------------- C04
def prime(n):
    return n == 1 or (n > 1 and all(n % i for i in range(2, n) if i * i <= n))


def next_prime(n):
    while not prime(n):
        n += 1
    return n


def primes_case(case):
    lo, hi = case
    want = [n for n in range(lo, hi + 1) if prime(n)]
    got = list(sizing.get_primes(lo, hi))
    if got != want:
        return f'get_primes({lo}, {hi}) gave {got[:20]}'
    endless = sizing.get_primes(lo)
    head = [next(endless) for _ in range(5)]
    want = [next_prime(lo)]
    while len(want) < 5:
        want.append(next_prime(want[-1] + 1))
    if head != want:
        return f'get_primes({lo}) begins with {head}'
    return None


def prime_case(n):
    if bool(sizing.is_prime(n)) != prime(n):
        return f'is_prime({n}) is {sizing.is_prime(n)}'
    return None


def count_case(case):
    capacity, size = case
    need = -(-capacity // size)
    got = sizing.number_of_collections(capacity, size)
    if got != next_prime(need):
        return f'number_of_collections({capacity}, {size}) is {got}, ' \
               f'the smallest sufficient prime is {next_prime(need)}'
    need = -(-ceil(capacity * 1.5) // size)
    got = sizing.next_number_of_collections(capacity, size)
    if got != next_prime(need):
        return f'next_number_of_collections({capacity}, {size}) is {got}, ' \
               f'the smallest sufficient prime is {next_prime(need)}'
    return None


def container_case(case):
    capacity, size, strict = case
    con = Container.new(capacity, size, strict=strict)
    cols = con.primary.collections
    if not prime(len(cols)):
        return f'{len(cols)} collections'
    if con.capacity < capacity:
        return f'capacity {con.capacity} below the requested {capacity}'
    if any(c.max_size > size for c in cols):
        return f'collections of {[c.max_size for c in cols]}, limit {size}'
    if len(cols) != next_prime(-(-capacity // size)):
        return f'{len(cols)} collections for {capacity} by {size}'
    if con.size or len(con.groups) != 1 or con.strict is not strict:
        return f'new container: size {con.size}, {len(con.groups)} groups, ' \
               f'strict {con.strict}'
    if len({c.uuid for c in cols}) != len(cols):
        return 'collections share an identifier'
    return None


def reach_case(n):
    """No collection of a group is unreachable: some key is kept in each."""
    group = Group.new(n, 1000)
    for i in range(40 * n):
        group.insert(f'https://example.org/obj/{i}', i)
    empty = [i for i, c in enumerate(group.collections) if not c.size]
    if empty:
        return f'collections {empty} of {n} hold none of {40 * n} keys'
    return None


def made_case(case):
    """A group made of given collections: those, in their order, with what
    they hold; an identifier twice is refused."""
    uuids, sizes, strict = case
    cols = [Collection(uuid=u, max_size=n, strict=not strict)
            for u, n in zip(uuids, sizes)]
    try:
        group = Group(cols, strict=strict)
    except KeyError:
        return 'refused' if len(set(uuids)) == len(uuids) else None
    if len(set(uuids)) != len(uuids):
        return 'taken, although an identifier is there twice'
    if [id(c) for c in group.collections] != [id(c) for c in cols] or \
            [c.uuid for c in cols] != list(uuids):
        return f'collections {[c.uuid for c in group.collections]}'
    if [c.strict for c in cols] != [strict] * len(cols) or \
            group.strict is not strict:
        return f'strict {[c.strict for c in cols]}, {group.strict}'
    if group.max_size != sum(sizes) or group.size:
        return f'size {group.size} of {group.max_size}'
    for value in (1, None, 'True'):
        try:
            group.strict = value
            return f'strict became {group.strict}'
        except TypeError:
            pass
    return None


def layout_case(case):
    custom, size, fill, strict = case
    out = None
    given = dict(custom)
    try:
        group = Group.new(size=size, max_collection_size=fill, strict=strict,
                          custom=given)
    except Exception as e:
        out = e
    if given != dict(custom):
        return f'the definition that was given became {given}'
    top = max(k for k, _ in custom)
    if size and size < top:
        return None if isinstance(out, KeyError) else \
            f'size below the highest key: {show(("exc", out))}'
    if any(v <= 0 for _, v in custom):
        return None if isinstance(out, ValueError) else 'a size below 1 taken'
    if out is not None:
        return f'raised {out!r}'
    d = dict(custom)
    want = [d.get(i, fill) for i in range(max(top + 1, size or 0))]
    got = [c.max_size for c in group.collections]
    if got != want:
        return f'collections of {got}, expected {want}'
    if group.strict is not strict or group.size:
        return 'strictness or contents of a new group'
    return None


def layout_cases():
    from itertools import combinations, product
    for r in (1, 2, 3):
        for ks in combinations(range(4), r):
            for vs in product((1, 5, 0), repeat=r):
                for size in (None, 1, 2, 3, 4, 6):
                    for strict in (True, False):
                        yield tuple(zip(ks, vs)), size, 3, strict


def refuse_case(case):
    kwargs, exc = case
    try:
        Group.new(**kwargs)
    except Exception as e:
        names = exc.split('|')
        return None if type(e).__name__ in names else f'raised {e!r}'
    return f'Group.new({kwargs}) was accepted'


def c04(ctx):
    """Every (capacity, collection size) of a finite grid against trial
    division; every custom layout over four slots against the documented
    filling rule."""
    t = ctx.thorough
    top = 60000 if t else 8000

    def grid(c, part, parts):
        caps = list(range(1, 2000 if t else 500)) + [4999, 5000, 5001, 99999]
        cases(c, 'collection-count',
              ((cap, size) for cap in caps[part::parts]
               for size in (*range(1, 80 if t else 40), 999, 1000, 4999, 5000,
                            5001)), count_case)

    def rest(c):
        cases(c, 'is-prime', range(1, top), prime_case)
        cases(c, 'prime-range', ((lo, hi) for lo in range(1, 80)
                                 for hi in range(lo, 120)), primes_case)
        cases(c, 'layout', layout_cases(), layout_case)
        cases(c, 'layout-refused', (
            ({}, 'ValueError'), ({'size': 0}, 'ValueError'),
            ({'size': 3, 'max_collection_size': 0}, 'ValueError'),
            ({'size': 3, 'max_collection_size': -1}, 'ValueError'),
            ({'custom': {'a': 3}}, 'KeyError'),
            ({'custom': {0: 3, 'b': 1}}, 'KeyError'),
        ), refuse_case)
        cases(c, 'group-made', (
            (uuids, sizes, strict) for n in range(1, 5)
            for uuids in product(('a', 'b', 'c', 'A'), repeat=n)
            for sizes in product((1, 3), repeat=n)
            for strict in (True, False)), made_case)
        cases(c, 'container-new',
              ((cap, size, s) for cap in range(1, 60)
               for size in (1, 2, 3, 5, 10, 50, 100) for s in (True, False)),
              container_case)
        cases(c, 'collections-used', (1, 2, 3, 5, 7, 11, 13, 17, 19, 23),
              reach_case)
    parallel(ctx, [(grid, i, 6) for i in range(6)] + [(rest,)])


# ------------------------------------------------------------------------- C08
LEVELS = (0, 60, 70, 80, 90)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(b))


def fill_case(case):
    size, n = case
    col = Collection(max_size=size, strict=False)
    for i in range(n):
        col.insert(f'k{i}', None)
    if (col.size, col.max_size) != (n, size):
        return f'size {col.size} of {col.max_size}'
    if not close(col.usage, n / size):
        return f'usage {col.usage}, {n} of {size} used'
    if col.status not in (ref_level(n, size), exact_level(n, size)):
        return f'status {col.status} at {n} of {size}'
    if (col.meta.size, col.meta.max_size, col.meta.usage, col.meta.status) != \
            (col.size, col.max_size, col.usage, col.status):
        return 'metadata differs from the collection'
    return None


def exact_level(n, size):
    """The level by whole percents, rounded up in exact arithmetic."""
    return max(v for v in LEVELS if v <= -(-n * 100 // size))


def ref_level(n, size):
    """The same in floating point: both roundings are accepted."""
    return max(v for v in LEVELS if v <= ceil(n / size * 100))


class Metrics(Driver):
    """Container of a primary and secondaries, metrics after every history."""
    name = 'metrics'
    configs = tuple({'prim': p, 'old': o, 'first': f}
                    for p in ((3,), (2, 5), (1, 2, 4))
                    for o in ((), ((2,),), ((4, 4), (3,)))
                    for f in (True, False) if f or o)
    # one collection may be overfull in a group that is not; then, kept in a
    # database: figures must follow what is committed and aborted
    configs += tuple({'prim': p, 'old': (), 'first': True, 'domain': d}
                     for p, d in (((1, 2, 4), ('c', 'f', 'i', 'a')),
                                  ((1, 5), ('b', 'd', 'f', 'a')),
                                  ((2, 9), ('b', 'd', 'f', 'a')),
                                  ((5, 9, 1), ('b', 'e', 'a', 'c'))))
    configs += tuple({'prim': (2, 5), 'old': o, 'first': True, 'saved': True}
                     for o in ((), ((2,),)))
    domain = ('a', 'b', 'c', 'd')

    def group(self, sizes):
        return Group.new(custom=dict(enumerate(sizes)), strict=False)

    def build(self, cfg):
        prim = self.group(cfg['prim'])
        old = tuple(self.group(s) for s in cfg['old'])
        groups = (prim,) + old if cfg['first'] else old + (prim,)
        con = Container(prim, groups)
        if cfg.get('saved'):
            conn = DB(MappingStorage()).open(TransactionManager())
            conn.root.container = con
            conn.transaction_manager.commit()
        return con

    def dispose(self, cfg, impl):
        if cfg.get('saved'):
            conn = impl._p_jar
            conn.transaction_manager.abort()
            conn.close()
            conn.db().close()

    def initial(self, cfg):
        return ((),) + tuple(() for _ in cfg['old'])

    def ops(self, cfg, model):
        domain = cfg.get('domain', self.domain)
        for g in range(len(model)):
            for k in domain:
                yield 'put', g, k
        for k in domain[:2]:
            yield 'delete', k
            yield 'write', k
        yield 'clear', len(model) - 1
        if cfg.get('saved'):
            for op in (('put', 0, 'a'), ('put', 0, 'b'), ('write', 'd'),
                       ('delete', 'a'), ('clear', 0)):
                yield ('undo',) + op

    def apply(self, cfg, impl, op):
        if op[0] == 'undo':
            self.change(cfg, impl, op[1:])
            self.observe(cfg, impl, None)
            impl._p_jar.transaction_manager.abort()
            return None
        self.change(cfg, impl, op)
        if cfg.get('saved'):
            self.observe(cfg, impl, None)
            impl._p_jar.transaction_manager.commit()

    def change(self, cfg, impl, op):
        olds = [g for g in impl.groups if g is not impl.primary]
        target = lambda i: impl.primary if i == 0 else olds[i - 1]
        if op[0] == 'put':
            return target(op[1]).insert(op[2], 0)
        if op[0] == 'clear':
            return target(op[1]).clear()
        if op[0] == 'write':
            return impl.write(op[1], 0)
        return impl.delete(op[1])

    def step(self, cfg, model, op, out):
        if out[0] == 'exc':
            return model, f'{op} on {model!r} {show(out)}'
        if op[0] == 'undo':
            return model, None
        model = [set(g) for g in model]
        if op[0] == 'put':
            model[op[1]].add(op[2])
        elif op[0] == 'clear':
            model[op[1]].clear()
        elif op[0] == 'write':
            model[0].add(op[1])
        else:
            for g in model:
                g.discard(op[1])
        return tuple(tuple(sorted(g)) for g in model), None

    def observe(self, cfg, impl, model):
        olds = [g for g in impl.groups if g is not impl.primary]
        groups = [impl.primary] + olds
        sizes = [cfg['prim']] + list(cfg['old'])
        if model is None:       # within a transaction: only ask for figures
            for what in (impl, *groups, *groups[0].collections):
                for name in ('size', 'usage', 'status', 'max_size'):
                    getattr(what, name), getattr(what.meta, name)
            return None
        for g, keys, size in zip(groups, model, sizes):
            cols = g.collections
            fills = [c.size for c in cols]
            uses = [f / s for f, s in zip(fills, size)]
            want = {'size': len(keys), 'max_size': sum(size),
                    'max_collection_size': max(size),
                    'usage': len(keys) / sum(size),
                    'highest_collection_usage': max(uses),
                    'lowest_collection_usage': min(uses),
                    'status': max(map(ref_level, fills, size))}
            if sum(fills) != len(keys):
                return f'collections hold {fills}, stored {keys}'
            for name, val in want.items():
                for src in (g, g.meta):
                    if not close(getattr(src, name), val):
                        return f'group {name} is {getattr(src, name)}, ' \
                               f'{val} of {keys} in {size}'
            got = sorted(g.collection_usage.values())
            if len(got) != len(uses) or \
                    not all(map(close, got, sorted(uses))):
                return f'collection_usage {got}, expected {uses}'
        want = {'size': sum(map(len, model)),
                'max_size': sum(map(sum, sizes)),
                'capacity': sum(sizes[0]), 'used': len(model[0]),
                'usage': len(model[0]) / sum(sizes[0]),
                'status': impl.primary.status}
        for name, val in want.items():
            for src in (impl, impl.meta):
                if not close(getattr(src, name), val):
                    return f'container {name} is {getattr(src, name)}, ' \
                           f'expected {val}: {model!r}'
        return None


def c08(ctx):
    """Every fill of every collection size to the bound, and every history of
    inserts, writes and deletes over containers of one to three groups, against
    metrics recomputed from the contents."""
    def fills(c, part):
        top = 120 if ctx.thorough else 60
        sizes = (*range(1, top), 100, 200, 1000)
        cases(c, 'collection-fill',
              ((s, n) for s in sizes[part::3]
               for n in range(0, int(s * 1.1) + 2,
                              1 if s <= 200 else 5)), fill_case)

    def hist(c, cfg):
        explore(c, Metrics(), depth=4 if ctx.thorough else 3, suffix=0,
                configs=[cfg])
    parallel(ctx, [(fills, i) for i in range(3)]
             + [(hist, cfg) for cfg in Metrics.configs])


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C08': c08}
DRIVERS = {d.name: d for d in (CollectionMap, GroupMap, Capacity,
                               ContainerCapacity, Metrics)}
CASES = {'collection-by-value': value_order, 'group-by-value': value_order,
         'collection-bulk': bulk, 'group-bulk': bulk, 'is-prime': prime_case,
         'prime-range': primes_case, 'collection-count': count_case,
         'layout': layout_case, 'layout-refused': refuse_case,
         'container-new': container_case, 'collection-fill': fill_case,
         'collections-used': reach_case,
         'group-made': made_case, 'group-processes': process_case}
