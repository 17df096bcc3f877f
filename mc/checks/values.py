"""Properties of objects: C19 (contextual properties), C20 (writing objects)."""
import contextlib
import json
from collections import deque
from copy import deepcopy
from datetime import datetime, timedelta
from itertools import chain, combinations, product

from mc import as2
from mc.core import Driver, cases, explore, parallel, show

as2.install()

from jsonld import ApplicationActivityJson, PropertyJsonLD  # noqa: E402
from jsonld import JSON_DATA_CONTEXT, contextualproperty  # noqa: E402
from jsonld.base import ContextualProperty, PropertyAwareObject  # noqa: E402
from jsonld.utils import CLASS_CHANGE_CONTEXT  # noqa: E402


def subsets(items, most=None):
    items = list(items)
    return chain.from_iterable(
        combinations(items, n) for n in range((len(items) if most is None
                                               else most) + 1))


# ------------------------------------------------------------------------- C19
NAMES = (None, 'A', 'B')        # the contexts functions are registered for
ENTERED = ('A', 'B', 'C', None)     # nothing is registered for C


def getter(tag):
    return lambda obj: ('got', tag, obj.log[-1] if obj.log else None)


def setter(tag):
    return lambda obj, val: obj.log.append(('set', tag, val))


def deleter(tag):
    return lambda obj: obj.log.append(('del', tag))


KINDS = {'get': getter, 'set': setter, 'del': deleter}


def make(getters, setters, deleters, how):
    """A contextual property with functions for these contexts, built in one
    of the ways there are."""
    have = {'get': getters, 'set': setters, 'del': deleters}
    if how == 'constructor':
        prop = ContextualProperty(*(KINDS[k](None) if None in have[k] else None
                                    for k in KINDS))
    else:
        prop = contextualproperty(getter(None)) if None in getters \
            else ContextualProperty()
        if None in setters:
            prop = prop.setter(setter(None))
        if None in deleters:
            prop = prop.deleter(deleter(None))
    for kind, add in (('get', 'getter_context'), ('set', 'setter_context'),
                      ('del', 'deleter_context')):
        for c in have[kind]:
            if c is not None:
                prop = getattr(prop, add)(c)(KINDS[kind](c))
    if how == 'derived':        # contexts are kept by what is derived later
        for kind, method in (('get', 'getter'), ('set', 'setter'),
                             ('del', 'deleter')):
            if None in have[kind]:
                prop = getattr(prop, method)(KINDS[kind](None))
    return prop


class Contexts(Driver):
    """Two objects of one class with a contextual property: contexts entered
    and left (normally or by an exception) and the property used in them."""
    name = 'contexts'

    def build(self, cfg):
        g, s, d, how = cfg
        prop = make(g, s, d, how)

        class Thing(PropertyAwareObject):
            def __init__(self):
                self.log = []
                super().__init__()
        Thing.p = prop

        class Sub(Thing):
            @property
            def q(self):
                return 'q'

        return [Thing(), Sub()], [[], []]

    def initial(self, cfg):
        return ((), ()), ((), ())        # contexts and log of each object

    def ops(self, cfg, model):
        stacks, logs = model
        for i in (0, 1):
            if len(stacks[i]) < 3:
                for c in ENTERED:
                    yield 'enter', i, c
            if stacks[i]:
                yield 'leave', i
                yield 'leave by exception', i
            if len(logs[i]) < 2:
                yield 'set', i
                yield 'del', i

    def apply(self, cfg, impl, op):
        objs, stacks = impl
        obj, stack = objs[op[1]], stacks[op[1]]
        if op[0] == 'enter':
            block = obj.switch_context(op[2])
            block.__enter__()
            stack.append(block)
        elif op[0] == 'leave':
            stack.pop().__exit__(None, None, None)
        elif op[0] == 'leave by exception':
            block = stack.pop()
            try:
                raise KeyError('boom')
            except KeyError as e:
                return block.__exit__(KeyError, e, e.__traceback__)
        elif op[0] == 'set':
            obj.p = 'v'
        else:
            del obj.p

    def step(self, cfg, model, op, out):
        have = {'get': cfg[0], 'set': cfg[1], 'del': cfg[2]}
        stacks, logs = [list(s) for s in model[0]], [list(g) for g in model[1]]
        i, err = op[1], None
        if op[0] == 'enter':
            stacks[i].append(op[2])
        elif op[0].startswith('leave'):
            stacks[i].pop()
            if out[0] == 'ok' and out[1]:
                err = 'leaving a context swallows the exception'
        else:
            tag = self.which(have[op[0]], stacks[i])
            if tag == 'none':
                if out[0] == 'ok' or not isinstance(out[1], AttributeError):
                    err = f'{op[0]} without function {show(out)}'
            else:
                logs[i].append(('set', tag, 'v') if op[0] == 'set'
                               else ('del', tag))
        if not err and out[0] == 'exc' and not isinstance(
                out[1], AttributeError):
            err = show(out)
        return (tuple(map(tuple, stacks)), tuple(map(tuple, logs))), err

    @staticmethod
    def which(have, stack):
        """The tag of the function that applies, 'none' if there is none."""
        context = stack[-1] if stack else None
        if context in have:
            return context
        return None if None in have else 'none'

    def observe(self, cfg, impl, model):
        for i, obj in enumerate(impl[0]):
            stack, log = model[0][i], model[1][i]
            if obj.log != list(log):
                return f'object {i} recorded {obj.log}, expected {list(log)}'
            tag = self.which(cfg[0], stack)
            if tag == 'none':
                for read in (lambda: obj.p, lambda: dict(obj)):
                    try:
                        return f'object {i}: no getter, but {read()}'
                    except AttributeError:
                        pass
                continue
            want = ('got', tag, log[-1] if log else None)
            if obj.p != want:
                return f'object {i} in {stack}: {obj.p}, expected {want}'
            pairs = list(obj)
            all_ = {'p': want, **({'q': 'q'} if i else {})}
            got = {k: v for k, v in pairs if k != '__namespace__'}
            if got != all_ or len({k for k, _ in pairs}) != len(pairs):
                return f'object {i}: iteration gives {pairs}'
            if obj['p'] != {'p': want} or obj[tuple(all_)] != all_ or \
                    obj[[]] != {} or obj[iter(list(all_))] != all_:
                return f'object {i}: selection gives {obj["p"]}'
            for bad in ('x', ['p', 'x'], 'log'):
                try:
                    return f'object {i}: {bad} selects {obj[bad]}'
                except KeyError:
                    pass
        return None


def derive_case(case):
    """A property derived from another: both stay what they are."""
    steps, have = case
    g, s, d = have
    prop = make(g, s, d, 'constructor')
    props = [(prop, {('get', c): c for c in g} | {('set', c): c for c in s} |
              {('del', c): c for c in d}, 'get' if None in g else None)]
    for n, (kind, source) in enumerate(steps):
        src, funcs, _ = props[source]
        tag = f'new{n}'
        new = getattr(src, {'get': 'getter', 'set': 'setter',
                            'del': 'deleter'}[kind])(KINDS[kind](tag))
        if new is src:
            return f'step {n} changes the property itself'
        props.append((new, {**funcs, (kind, None): tag}, None))

    class Thing(PropertyAwareObject):
        def __init__(self):
            self.log = []
            super().__init__()

    class Plain:                # knows of no contexts
        def __init__(self):
            self.log = []
    for n, (p, _, _) in enumerate(props):
        setattr(Thing, f'p{n}', p)
        setattr(Plain, f'p{n}', p)
    checks = 0
    for n, (p, funcs, _) in enumerate(props):
        for context in ('A', 'B', 'C', None, 'plain'):
            obj = Plain() if context == 'plain' else Thing()
            with contextlib.nullcontext() if context == 'plain' \
                    else obj.switch_context(context):
                for kind in KINDS:
                    checks += 1
                    tag = funcs.get((kind, context),
                                    funcs.get((kind, None), 'none'))
                    try:
                        if kind == 'get':
                            obj.log.append(getattr(obj, f'p{n}')[:2])
                        elif kind == 'set':
                            setattr(obj, f'p{n}', 1)
                        else:
                            delattr(obj, f'p{n}')
                        got = obj.log.pop()[1]
                    except AttributeError:
                        got = 'none'
                    if got != tag:
                        return (f'property {n}, {kind} in {context} uses '
                                f'{got}, expected {tag}')
    return None, checks, checks


def doc_case(case):
    """The documentation of a property is kept by those derived from it."""
    how, steps = case
    text = f'documented {how}'
    if how == 'constructor':
        prop = ContextualProperty(getter(None), doc=text)
    elif how == 'only doc':
        prop = ContextualProperty(doc=text)
    else:
        fn = getter(None)
        fn.__doc__ = text
        prop = contextualproperty(fn)
    for i, step in enumerate(((), *steps)):
        if step:
            kind, context = step
            fn = KINDS[{'getter': 'get', 'setter': 'set',
                        'deleter': 'del'}[kind]](i)
            prop = getattr(prop, kind)(fn) if context is None else \
                getattr(prop, kind + '_context')(context)(fn)
        if prop.__doc__ != text:
            return f'after {step} the documentation is {prop.__doc__!r}'
        cls = type('Documented', (PropertyAwareObject,), {'p': prop})
        if cls.p.__doc__ != text:
            return f'after {step} the class documents {cls.p.__doc__!r}'
    return None


def namespace_case(steps):
    """An object has the namespace of its class, which it can change in the
    context for it; classes derived have it, too, unless they have their own.
    """
    class A(PropertyAwareObject):
        @classmethod
        def __get_namespace__(cls):
            return 'first'

    class B(A):
        pass

    class C(B):
        @classmethod
        def __get_namespace__(cls):
            return 'own'

    class D(PropertyAwareObject):
        pass
    kls = {'A': A, 'B': B, 'C': C, 'D': D}
    obj = {c: k() for c, k in kls.items()}
    own = {'A': 'first', 'C': 'own', 'D': None}
    for i, (c, ns, context) in enumerate(((None,) * 3, *steps)):
        if c:
            before = own.get(c, own['A'])
            if context == CLASS_CHANGE_CONTEXT and before == ns:
                return None     # not decided what is set then
            try:
                with obj[c].switch_context(context):
                    obj[c].__namespace__ = ns
                ok = True
            except AttributeError:
                ok = False
            if ok != (context == CLASS_CHANGE_CONTEXT):
                return f'step {i} accepted: {ok}'
            if ok:
                own[c] = ns
        for k, cls in kls.items():
            want = own.get(k, own['A'])
            for o in (obj[k], cls()):
                got = [o.__namespace__, cls.__get_namespace__(),
                       dict(iter(o)).get('__namespace__')]
                with o.switch_context('other'):
                    got.append(o.__namespace__)
                if got != [want] * 4:
                    return f'after step {i}, {k} has {got}, not {want}'
                with o.switch_context(JSON_DATA_CONTEXT):
                    if o.__namespace__ is not None:
                        return f'{k} shows {o.__namespace__} as its data'
    return None


def c19(ctx):
    """Every history of entering and leaving contexts (also by exceptions) and
    using a property of two objects, for every choice of functions registered
    for it; chains of properties derived from each other."""
    t = ctx.thorough
    sets = list(subsets(NAMES))
    few = [(), (None,), ('A',), (None, 'A'), (None, 'A', 'B')]
    cfgs = [(g, s, d, how) for g in sets for s in few
            for d in [(None, 'A'), ('B',), ()]
            for how in ('constructor', 'derived')
            if t or how == 'derived' or len(g) == 2]
    n = 16

    def job(c, i):
        explore(c, Contexts(), 3, suffix=1, configs=cfgs[i::n])

    def deep(c, i):
        explore(c, Contexts(), 6 if t else 4, suffix=1,
                configs=[[((None, 'A', 'B'), (None, 'A'), (None, 'B'),
                           'derived')],
                         [(('A',), (None, 'A', 'B'), (None, 'A'),
                           'constructor')]][i])
    parallel(ctx, [(job, i) for i in range(n)] + [(deep, i) for i in (0, 1)])
    space = [(steps, have) for have in
             product(few, [(None, 'A'), ('B',), ()], [(None, 'B'), ()])
             for k in range(4 if t else 3)
             for steps in product([(kind, src) for kind in KINDS
                                   for src in range(k)], repeat=k)
             if all(src <= i for i, (_, src) in enumerate(steps))]

    def derived(c, i):
        cases(c, 'derived properties', space[i::8], derive_case)
    parallel(ctx, [(derived, i) for i in range(8)])
    steps = list(product(('getter', 'setter', 'deleter'), (None, 'A')))
    cases(ctx, 'documentation',
          product(('constructor', 'only doc', 'decorator'),
                  [x for n in range(4 if t else 3)
                   for x in product(steps, repeat=n)]), doc_case)
    steps = list(product('ABCD', ('n1', 'n2'),
                         (CLASS_CHANGE_CONTEXT, None, JSON_DATA_CONTEXT)))
    cases(ctx, 'namespaces', [x for n in range(4 if t else 3)
                              for x in product(steps, repeat=n)],
          namespace_case)


# ------------------------------------------------------------------------- C20
class Stored:
    """A plain property that keeps its value under another name."""

    def __new__(cls, name):
        def fget(self):
            return getattr(self, '_' + name, None)

        def fset(self, value):
            setattr(self, '_' + name, value)
        return property(fget, fset)


class Doc(ApplicationActivityJson):
    def __init__(self, acontext=None, **values):
        super().__init__(acontext)
        for k, v in values.items():
            setattr(self, k, v)

    aid = Stored('aid')
    context = Stored('context')
    cont = Stored('cont')
    text = Stored('text')
    graph = Stored('graph')

    @contextualproperty
    def when(self):
        return getattr(self, '_when', None)

    @when.setter
    def when(self, value):
        self._when = value

    @when.getter_context(JSON_DATA_CONTEXT)
    def when(self):
        value = getattr(self, '_when', None)
        if value == 'boom':
            raise RuntimeError('boom')
        return None if value is None or value == 'hide' else f'out {value}'


class Other(PropertyJsonLD):
    def __init__(self, text=None, acontext='other'):
        super().__init__(acontext)
        self.text = text
    text = Stored('text')
    nest = Stored('nest')


class Named:
    def __str__(self):
        return 'named'


class Chain:
    """Can be iterated, and is nothing else."""
    def __init__(self, values):
        self.values = values

    def __iter__(self):
        return iter(self.values)


SORTS = {'tuple': tuple, 'frozenset': frozenset, 'deque': deque,
         'chain': Chain}
SPECIAL = {'datetime': datetime(2020, 1, 2), 'named': Named(),
           'delta': timedelta(seconds=1)}
ALL = ('acontext', 'aid', 'context', 'cont', 'text', 'graph', 'when')
NAMED = {'acontext': '@context', 'aid': '@id'}


def real(spec):
    """('doc'|'other', values), ('special', name), ('set', v): see VALUES"""
    if isinstance(spec, tuple) and spec and spec[0] in (
            'doc', 'other', 'special', 'set', *SORTS):
        if spec[0] == 'special':
            return SPECIAL[spec[1]]
        if spec[0] == 'set':
            return {real(spec[1])}
        if spec[0] in SORTS:
            return SORTS[spec[0]]([real(v) for v in spec[1]])
        values = {k: real(v) for k, v in spec[1].items()}
        return (Doc if spec[0] == 'doc' else Other)(**values)
    if isinstance(spec, list):
        return [real(v) for v in spec]
    if isinstance(spec, dict):
        return {k: real(v) for k, v in spec.items()}
    return spec


def written(spec):
    """What a value is written as."""
    if isinstance(spec, tuple):
        if spec[0] == 'special':
            return str(SPECIAL[spec[1]])
        if spec[0] == 'set':
            return [written(spec[1])]
        if spec[0] in SORTS:
            return [written(v) for v in spec[1]]
        return expected(spec, {'exclude': ('acontext',)})
    if isinstance(spec, list):
        return [written(v) for v in spec]
    if isinstance(spec, dict):
        return {k: written(v) for k, v in spec.items()}
    return spec


def expected(spec, options):
    kind, values = spec
    names = ALL if kind == 'doc' else ('acontext', 'text', 'nest')
    values = {'acontext': 'other' if kind == 'other' else None, **values}
    include, exclude = options.get('include', ()), options.get('exclude', ())
    rename = {**NAMED, **options.get('rename', {})}
    out = {}
    for name in names:
        value = values.get(name)
        if name == 'when' and kind == 'doc':
            if options.get('context') != 'plain':
                value = None if value in (None, 'hide') else f'out {value}'
        if value is None and not options.get('include_none'):
            continue
        if include and name not in include or name in exclude:
            continue
        if any(value is r or value == r
               for r in options.get('reject_values', ())):
            continue
        out[rename.get(name, name)] = written(value)
    return out


def strip(data, options):
    """The name of the namespace is only there if None is asked for."""
    if options.get('include_none'):
        data = {k: v for k, v in data.items() if k != '__namespace__'}
    return data


def same(a, b):
    """Equal in values and types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def state(obj):
    """Everything an object holds, to see that writing changes nothing."""
    if isinstance(obj, (Doc, Other)):
        return type(obj).__name__, {k: state(v) for k, v in vars(obj).items()
                                    if k.startswith('_') and
                                    not k.startswith('__')}
    if isinstance(obj, dict):
        return {k: state(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return type(obj), [state(v) for v in obj]
    return repr(obj)


def write_case(case):
    values, options = case
    spec = ('doc', values)
    obj = real(spec)
    before = state(obj)
    kept = deepcopy(options)
    want = expected(spec, options)
    got = strip(obj.data(**options), options)
    if not same(got, want):
        return f'data is {got}, expected {want}'
    if options != kept:
        return f'the options given became {options}'
    opts = {k: v for k, v in options.items()
            if k not in ('reject_values', 'context')}
    want = expected(spec, opts)
    for style in ({}, {'minified': True}, {'indent': 2}, {'indent': 0},
                  {'minified': False, 'indent': None}):
        text = obj.json(**opts, **style)
        parsed = json.loads(text)
        if not same(strip(parsed, opts), want):
            return f'json({style}) is {text}, expected {want}'
        how = {'separators': (',', ':')} if style.get('minified') else \
            {'indent': style.get('indent')}
        if text not in (json.dumps(parsed, **how),
                        json.dumps(parsed, ensure_ascii=False, **how)):
            return f'json({style}) is {text!r}'
    if not opts and json.loads(str(obj)) != want:
        return f'str is {obj}'
    if state(obj) != before:
        return f'writing changed {before} to {state(obj)}'
    if obj.when != values.get('when'):
        return f'afterwards, the property reads {obj.when!r}'
    return None


BOXES = {'list': list, 'tuple': tuple, 'set': set, 'keys': dict.fromkeys,
         'iterator': iter, 'generator': lambda v: (x for x in v),
         'one text': lambda v: v[0]}


def boxed_case(case):
    """The names and values may come in any kind of iterable."""
    values, options, box = case
    if box == 'one text':
        options = {k: v[:1] for k, v in options.items()}
    obj = real(('doc', values))
    want = expected(('doc', values), options)
    for write in (obj.data, lambda **o: json.loads(obj.json(**o))):
        if 'reject_values' in options and write != obj.data:
            break
        got = write(**{k: BOXES[box](v) for k, v in options.items()})
        if not same(got, want):
            return f'data is {got}, expected {want}'
    return None


def failing_case(case):
    """Writing fails: the error is passed on, nothing else changes."""
    where, options = case
    inner = Doc('c', text='in', when='boom')
    obj = {'own': inner, 'embedded': Doc('c', graph=inner, when='x'),
           'list': Doc('c', graph=['y', [inner]], when='x')}[where]
    before = state(obj)
    for write in (obj.data, obj.json):
        try:
            return f'failed getter, but {write(**options)}'
        except RuntimeError:
            pass
        if obj.when != obj._when or inner.when != 'boom':
            return f'afterwards, the property reads {obj.when!r}'
    if state(obj) != before:
        return 'the failed attempt changed the object'
    inner.when = 'fine'
    if obj.data(**options) != strip(json.loads(obj.json(**options)), {}):
        return 'writing does not work afterwards'
    if obj.data().get('when') != ('out fine' if where == 'own' else 'out x'):
        return f'afterwards {obj.data()} is written'
    return None


def transform_case(case):
    obj = Doc('c', text='x')
    got = obj.data(transforms={'text': lambda *a: 'TRANSFORMED'})
    if got.get('text') != 'TRANSFORMED':
        return f'transforms given for data are ignored: {got}'
    return None


INNER = ('doc', {'acontext': 'inner', 'aid': 'i', 'context': 'ctx',
                 'cont': 'c', 'when': 'w'})
VALUES = [None, False, True, 0, 1, -1.5, 0.0, '', 'x', 'ünï "\n', [], {},
          ['x', None, 1, False], [[], [['y', 0]]], ('tuple', (1, 'y')),
          ('set', 'only'), ('frozenset', [2]), ('deque', ['q', [None]]),
          ('chain', ['c', ('chain', [1, INNER])]), {'k': None, 'context': ['v', {'w': 0}]},
          INNER, ('other', {'text': 't'}), ('doc', {}),
          [INNER, 'x', ('other', {'text': INNER})],
          {'k': [INNER], 'm': ('doc', {'graph': [('doc', {
              'acontext': 'deep', 'graph': INNER})]})},
          ('doc', {'acontext': 'a', 'graph': ('doc', {
              'acontext': 'b', 'context': ('doc', {'acontext': 'c',
                                                   'text': 'deepest'})})}),
          ('special', 'datetime'), ('special', 'named'), ('special', 'delta')]
OPTIONS = [{}, {'include_none': True}, {'context': 'plain'}, {'include': ('text', 'aid')},
           {'include': ['context']}, {'exclude': ('acontext',)},
           {'exclude': {'text', 'cont'}}, {'exclude': ['when'],
                                           'include_none': True},
           {'rename': {'text': 'T', 'aid': 'id'}},
           {'rename': {'acontext': 'ctx', 'when': 'then'},
            'exclude': ('text',)},
           {'include': ('text', 'when', 'acontext'), 'exclude': ('text',)},
           {'reject_values': ('x', '')}, {'reject_values': [0]},
           {'reject_values': ('out y', None), 'include_none': True},
           {'include': ('cont',), 'include_none': True},
           {'include': ('text', 'context'), 'rename': {'context': 'text',
                                                       'text': 'context'}}]
FULL = {'acontext': 'http://c', 'aid': 'http://i', 'context': 'ctx',
        'cont': 'c', 'text': 'x', 'graph': INNER, 'when': 'y'}


def c20(ctx):
    """Every value of every property with every choice of options, values of
    two properties, every set of included and excluded ones; getters that fail.
    """
    t = ctx.thorough
    whens = [None, 'hide', 'y', 'x']
    acontexts = [None, 'http://c', ['http://c', {'k': 'v'}], {'k': 'http://v'}]
    one = [({p: v}, o) for p in ('context', 'cont', 'text', 'graph', 'aid')
           for v in VALUES for o in OPTIONS]
    one += [({'acontext': a, 'when': w, 'text': 'x'}, o) for a in acontexts
            for w in whens for o in OPTIONS]
    some = VALUES if t else VALUES[::3] + [False, INNER]
    two = [({**({'acontext': 'c', 'when': 'y'} if i else {}), p: v, q: w}, o)
           for p, q in combinations(('context', 'cont', 'text', 'graph'), 2)
           for v in some for w in some for i in (0, 1)
           for o in (OPTIONS if t else OPTIONS[:2])]
    sets = list(subsets(ALL, None if t else 3))
    chosen = [(FULL, {**({'include': i} if i else {}),
                      **({'exclude': e} if e else {}),
                      **({'include_none': True} if n else {})})
              for i in sets for e in (sets if t else sets[:29])
              for n in (0, 1)]
    names = ALL
    renames = [(FULL, {'rename': {a: 'N1', b: 'N2'}, **o})
               for a in names for b in names if a != b
               for o in ({}, {'include': (a,)}, {'exclude': (b,)},
                         {'include_none': True})]
    # new names that are also names of properties or given in other options
    renames += [(FULL, {'rename': r, **o}) for a in names for b in names
                if a != b for w in {b, NAMED.get(b, b)} for r, o in (
                    ({a: w}, {'exclude': (b,)}),
                    ({a: w}, {'include': (a,)}),
                    ({a: w}, {'include': (a, w), 'exclude': (b,)}),
                    ({a: w, b: a}, {}), ({a: w, b: a}, {'include': (a,)}),
                    ({a: w, b: a}, {'exclude': (a,)}),
                    ({a: 'N'}, {'exclude': ('N', b)}),
                    ({a: 'N'}, {'include': ('N', a)}),
                    ({a: 'N'}, {'reject_values': ('N', a, b)}),
                    ({a: w}, {'exclude': (b,), 'include_none': True}))]

    def job(c, name, space, i):
        cases(c, name, space[i::8], write_case)
    parallel(ctx, [(job, name, space, i) for name, space in
                   (('one value', one), ('two values', two),
                    ('included and excluded', chosen), ('renamed', renames))
                   for i in range(8)])
    cases(ctx, 'failing getters', [(w, o) for w in ('own', 'embedded', 'list')
                                   for o in ({}, {'exclude': ['text']},
                                             {'rename': {'when': 'w'}})],
          failing_case)
    cases(ctx, 'kinds of iterables', [
        (v, o, b) for v in (FULL, {**FULL, 'graph': ['x', ['x']]})
        for o in ({'include': ('text', 'aid')}, {'exclude': ('text', 'aid')},
                  {'include': ('aid', 'text', 'when'),
                   'exclude': ('text', 'cont')},
                  {'reject_values': ('x', 'out y')}, {'include': ('graph',)})
        for b in BOXES], boxed_case)
    cases(ctx, 'transforms', ['data'], transform_case,
          lambda case, err: 'transforms-ignored'
          if 'ignored' in err else None)


CHECKS = {'C19': c19, 'C20': c20}
DRIVERS = {'contexts': Contexts}
CASES = {'one value': write_case, 'two values': write_case,
         'included and excluded': write_case, 'renamed': write_case,
         'failing getters': failing_case, 'kinds of iterables': boxed_case, 'transforms': transform_case,
         'derived properties': derive_case, 'namespaces': namespace_case, 'documentation': doc_case}
