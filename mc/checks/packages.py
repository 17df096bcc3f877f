"""Packages of classes: C23 (copies of classes), C24 (combining packages)."""
from itertools import combinations, permutations, product

from mc import as2
from mc.core import Driver, cases, explore, outcome, parallel, show

as2.install()

from jsonld import ApplicationActivityJson, JsonLdEngine  # noqa: E402
from jsonld import JsonLdPackage, JsonProperty, contextualproperty  # noqa: E402

EX = 'http://example.org/ns#'


# ------------------------------------------------------------------------- C23
class Callable_:
    """A value of a class that can be called, but is no method."""
    def __init__(self, name):
        self.name = name

    def __call__(self, *values):
        return self.name, values


def make_class(name, bases, overrides):
    """A class with an attribute and a method of its own; ``overrides`` says
    whether it has its own version of what others have, too."""
    body = {}

    def __init__(self, **kwargs):
        super(box[0], self).__init__(**kwargs)
        self.made = getattr(self, 'made', ()) + (name,)
        setattr(self, f'val_{name}', kwargs.get('val'))

    def who(self):
        return [name] + super(box[0], self).who()

    def echo(self, value):
        return value

    box = []
    body['__init__'] = __init__
    body[f'only_{name}'] = lambda self: name
    body[f'attr_{name}'] = name
    body[f'echo_{name}'] = echo
    body[f'prop_{name}'] = property(
        lambda self: getattr(self, '_' + name, None),
        lambda self, v: setattr(self, '_' + name, v))
    body[f'read_{name}'] = property(lambda self: 'read ' + name)
    body[f'static_{name}'] = staticmethod(lambda *values: values[-1])
    body[f'Kind_{name}'] = type('Kind', (), {})
    body[f'call_{name}'] = Callable_(name)
    if overrides:
        body['who'] = who
        body['attr'] = name
    cls = type(name, bases, body)
    box.append(cls)
    return cls


class Root(ApplicationActivityJson):
    attr = 'root'

    def __init__(self, **kwargs):
        super().__init__(kwargs.get('acontext'))

    @classmethod
    def __get_namespace__(cls):
        return EX + cls.__name__

    def who(self):
        return ['root']


def linked_property(name, origin='', key=None):
    """A property class, its values marked by where it comes from."""
    def fget(self):
        return getattr(self, f'_{name}_', None)

    def fset(self, value):
        setattr(self, f'_{name}_', value if not origin
                else f'{origin}:{value}')

    def fdel(self):
        setattr(self, f'_{name}_', f'{origin} deleted')
    fget.__doc__ = f'The {name} of {origin}.'
    prop = contextualproperty(fget).setter(fset).deleter(fdel)
    prop.getter_context('shout')(
        lambda self: getattr(self, f'_{name}_', '?').upper())

    def ns(cls):
        return EX + 'dfn-' + (key or name)
    return type(name.title() + origin, (JsonProperty,),
                {name: prop, '__get_namespace__': classmethod(ns)})


NAMES = 'ABCDEFGHIJKLMNOPQRST'


def hierarchies(n):
    """Every way the first n classes can derive from each other: for each its
    bases in order; what Python itself refuses is left out."""
    choices = [[b for k in range(i + 1)
                for b in permutations(range(i), k)] for i in range(n)]
    for bases in product(*choices):
        try:
            build(bases, ())
        except TypeError:
            continue
        yield bases


def build(bases, overrides):
    made = []
    for i, b in enumerate(bases):
        made.append(make_class(NAMES[i], tuple(made[j] for j in b) or (Root,),
                               i in overrides))
    return made


CACHES = {'__properties__', '__property_name__', '__registration__', '__doc__',
          '__dict__', '__weakref__', '__module__'}


def snapshot(classes):
    return [(c, c.__bases__, {k: v for k, v in vars(c).items()
                              if k not in CACHES}) for c in classes]


def relation_error(classes, listed, package, linked):
    """How a package of the listed classes differs from what it must be."""
    if len(package.objects) != len(listed):
        return f'the package has {package.objects}'
    copy = {}
    for i in listed:
        c = package[EX + NAMES[i]]
        if c is None or c not in package.objects or c.__name__ != NAMES[i]:
            return f'{NAMES[i]} is {c}'
        if c is classes[i] or not issubclass(c, classes[i]):
            return f'{NAMES[i]} in the package is {c.__mro__}'
        copy[i] = c
    for j, prop in linked.items():
        c = package[EX + f'dfn-link{j}']
        if c is prop or not issubclass(c, prop) or \
                c not in package.properties or c.__name__ != prop.__name__:
            return f'the property class {prop} is {c} in the package'
    if len(package.properties) != len(linked):
        return f'the package has properties {package.properties}'
    for i in listed:
        original, c = classes[i], copy[i]
        for j in listed:
            if issubclass(c, copy[j]) != issubclass(original, classes[j]):
                return (f'in the package, {NAMES[i]} is '
                        f'{"" if issubclass(c, copy[j]) else "not "}'
                        f'a {NAMES[j]}')
        a, b = original(val=i), c(val=i)
        if type(b) is not c:
            return f'creating {NAMES[i]} of the package gives {type(b)}'
        if a.who() != b.who() or a.made != b.made or a.attr != b.attr:
            return (f'{NAMES[i]}: {b.who()}, {b.made}, {b.attr} in the '
                    f'package, originally {a.who()}, {a.made}, {a.attr}')
        own = {p + k.__name__ for k in original.__mro__
               if k in classes for p in ('prop_', 'read_')} | {
                   'acontext', '__namespace__'}
        extra = {f'link{j}' for j in linked
                 if j in listed and issubclass(original, classes[j])}
        if set(c.__get_properties__()) != own | extra:
            return (f'{NAMES[i]} has properties {c.__get_properties__()}, '
                    f'expected {own | extra}')
        if set(original.__get_properties__(refresh=True)) != own:
            return (f'the original {NAMES[i]} has properties '
                    f'{original.__get_properties__()}')
        for k in classes:
            n = k.__name__
            has = issubclass(original, k)
            if hasattr(b, f'attr_{n}') != has or has and (
                    getattr(b, f'attr_{n}') != n or
                    getattr(b, f'only_{n}')() != n or
                    getattr(b, f'val_{n}') != i or
                    getattr(b, f'static_{n}')(n) != n or
                    getattr(c, f'static_{n}')(1, n) != n or
                    getattr(c, f'Kind_{n}') is not vars(k)[f'Kind_{n}'] or
                    getattr(b, f'call_{n}')(n) != (n, (n,)) or
                    getattr(b, f'call_{n}') is not vars(k)[f'call_{n}'] or
                    getattr(b, f'read_{n}') != 'read ' + n):
                return f'{NAMES[i]}: attributes of {n} differ'
            for do in (lambda: setattr(b, f'read_{n}', 1),
                       lambda: delattr(b, f'read_{n}')) if has else ():
                kind, e = outcome(do)
                if kind == 'ok' or not isinstance(e, AttributeError):
                    return f'{NAMES[i]}: read-only: {show((kind, e))}'
            if has:
                setattr(b, f'prop_{n}', 'value')
                if getattr(b, f'prop_{n}') != 'value' or b.data().get(
                        f'prop_{n}') != 'value':
                    return f'{NAMES[i]}: property of {n}: {b.data()}'
        for name in extra:
            setattr(b, name, 'linked')
            if getattr(b, name) != 'linked' or \
                    b.data().get(name) != 'linked':
                return f'{NAMES[i]}: {name} is {b.data()}'
    return None


def clone_case(case):
    """Packages of some of the classes of a hierarchy, in every order."""
    bases, overrides, linked = case
    n, done = len(bases), 0
    for size in range(1, n + 1):
        for listed in permutations(range(n), size):
            classes = build(bases, overrides)
            before = snapshot(classes)
            props = {j: linked_property(f'link{j}') for j in linked}
            prop_before = snapshot(props.values())
            mapping = {EX + NAMES[j]: (EX + f'dfn-link{j}',)
                       for j in linked if j in listed}
            package = JsonLdPackage(
                EX, tuple(classes[i] for i in listed),
                tuple(props.values()), mapping)
            done += 1
            err = relation_error(classes, listed, package, props)
            if not err and snapshot(classes) != before:
                err = 'the original classes changed'
            if not err and snapshot(props.values()) != prop_before:
                err = 'the original property classes changed'
            if not err:     # once more, of the same classes, and of copies
                again = JsonLdPackage(EX, [classes[i] for i in listed])
                err = relation_error(classes, listed, again, {})
                if set(again.objects) & set(package.objects):
                    err = 'two packages share classes'
                copies = list(classes)
                for i in listed:
                    copies[i] = again[EX + NAMES[i]]
                if not err and len(listed) == n:
                    third = JsonLdPackage('http://x/', again.objects)
                    err = relation_error(copies, listed, third, {})
                err = err or relation_error(classes, listed, package, props)
            if err:
                return f'listed as {[NAMES[i] for i in listed]}: {err}', 1, 1
    return None, done, done


def adopt_case(case):
    """Objects of the original classes that a package gets hold of."""
    bases, listed, holder, held, how, linked, way = case
    classes = build(bases, ())
    props = {j: linked_property(f'link{j}') for j in linked}
    package = JsonLdPackage(
        EX, tuple(classes[i] for i in listed), tuple(props.values()),
        {EX + NAMES[j]: (EX + f'dfn-link{j}',) for j in linked
         if j in listed})
    inside = package[EX + NAMES[holder]]
    target = package[EX + NAMES[held]] if held in listed else classes[held]
    h = inside()
    x, y = classes[held](val=1), classes[held](val=2)
    x.prop_A, y.prop_A = 'of x', x      # A is an ancestor of none or all
    name = f'prop_{NAMES[holder]}'
    other = Root()
    give = {'single': x, 'list': [x, 'text', other, x], 'nested list':
            [[x], other], 'chain': y, 'foreign': other}[how]

    setattr(h, name, give)
    gets = [lambda: getattr(h, name)] * 2 + \
        [lambda: getattr(h, f'echo_{NAMES[holder]}')(give),
         lambda: getattr(h, f'static_{NAMES[holder]}')(give)]
    if way == 'static':
        gets.reverse()
    if way == 'link':
        if holder not in linked:
            return None
        setattr(h, f'link{holder}', give)
        gets = [lambda: getattr(h, f'link{holder}')] + gets
    for get in gets:
        got = get()
        if how == 'foreign':
            if got is not other or type(other) is not Root:
                return f'a foreign object became {got}'
            continue
        if how == 'single':
            flat = [got]
        elif how == 'list':
            flat = got[:1] + got[3:]
            if got[1] != 'text' or got[2] is not other or len(got) != 4:
                return f'list: {got}'
        elif how == 'nested list':
            flat = got[0]
        else:
            flat = [got.prop_A]
            if got is not y or type(got) is not target:
                return f'chain: {type(got)}, expected {target}'
        for g in flat:
            if g is not x:
                return f'another object {g}'
            if type(g) is not target:
                return f'{how}: it is a {type(g)}, expected {target}'
            if g.prop_A != 'of x' or getattr(g, f'val_{NAMES[held]}') != 1:
                return f'{how}: the values became {vars(g)}'
            if g.data().get('prop_A') != 'of x':
                return f'{how}: written as {g.data()}'
            if set(g.__properties__) != set(
                    type(g).__get_properties__(refresh=True)):
                return f'{how}: properties {g.__properties__}'
    if classes[held]().prop_A is not None or \
            type(classes[held]()) is not classes[held]:
        return 'the original class is no longer what it was'
    for i, cls in enumerate(classes):
        for c in (cls, package[EX + NAMES[i]]) if i in listed else (cls,):
            if c.__get_namespace__() != EX + NAMES[i]:
                return f'the namespace of {NAMES[i]} is ' \
                       f'{c.__get_namespace__()}'
    return None


def as2_case(case):
    """The vocabulary itself: classes of two packages made after each other"""
    from activitystreams import create_package, models
    first = create_package()
    before = snapshot(getattr(models, n) for n in as2.PARENTS)
    second = create_package()
    if snapshot(getattr(models, n) for n in as2.PARENTS) != before:
        return 'creating a package changes the original classes'
    for p in (first, second):
        for n in as2.PARENTS:
            c = p[as2.AS2 + '#' + n]
            if c is None or c.__name__ != n:
                return f'{n} is {c}'
            for m in as2.PARENTS:
                if issubclass(c, p[as2.AS2 + '#' + m]) != as2.is_a(n, m):
                    return f'{n} and {m} are not related as they should'
            missing = set(as2.properties_of(n)) - set(c.__get_properties__())
            if missing:
                return f'{n} lacks {missing}'
            extra = set(c.__get_properties__()) - set(
                as2.properties_of(n)) - {
                'type', 'object', 'acontext', '__namespace__', 'items',
                'unorderedItems', 'orderedItems'}
            if extra:
                return f'{n} also has {extra}'
    if set(first.objects) & set(second.objects):
        return 'two packages share classes'
    return None


def c23(ctx):
    """Every hierarchy of up to four (five) classes with multiple inheritance,
    every listing of every part of it, with and without overridden methods and
    linked properties; original objects met by packages in every way."""
    t = ctx.thorough
    spaces = []
    for n in (1, 2, 3, 4):
        for bases in hierarchies(n):
            ov = [()] + ([tuple(range(n))] if n else [])
            if n <= 3 or t:
                ov += [o for k in range(1, n) for o in
                       combinations(range(n), k)]
            links = [(), (0,), (n - 1,)] + ([tuple(range(n))] if n < 4 or t
                                            else [])
            if n == 4 and not t:
                ov, links = [tuple(range(n)), (1,), (1, 2)], [(0,), (2,)]
            spaces += [(bases, o, k) for o in ov for k in dict.fromkeys(links)]

    def job(c, i):
        cases(c, 'copies', spaces[i::16], clone_case)
    adopts = []
    for n in (2, 3) + ((4,) if t else ()):
        for bases in hierarchies(n):
            # everything derives from the first class
            if any(not b for b in bases[1:]):
                continue
            for size in range(1, n + 1):
                for listed in combinations(range(n), size):
                    adopts += [(bases, listed, h, x, how, link, way)
                               for h in listed for x in range(n)
                               for how in ('single', 'list', 'nested list',
                                           'chain', 'foreign')
                               for link in ((), (0,), (x,))
                               for way in ('own', 'link', 'static')
                               if way != 'link' or h in link]

    def adopt(c, i):
        cases(c, 'adopted objects', adopts[i::8], adopt_case)
    parallel(ctx, [(job, i) for i in range(16)] +
             [(adopt, i) for i in range(8)])
    cases(ctx, 'vocabulary', ['twice'], as2_case)


# ------------------------------------------------------------------------- C24
# what the packages are made of: objects (name, base), properties and links
BASES = {
    'P': {'objects': {'A': None, 'B': 'A'}, 'properties': ('p',),
          'links': {'A': ('p',)}},
    'Q': {'objects': {'C': None, 'A': None}, 'properties': ('q',),
          'links': {'C': ('q',), 'A': ('q',)}},
    'R': {'objects': {'D': None, 'B': None}, 'properties': ('p', 'r'),
          'links': {'D': ('p', 'r')}},
    'S': {'objects': {'E': None}, 'properties': (), 'links': {}},
    # other classes and properties of the same (Python) names
    'T': {'objects': {'otherA': None, 'otherC': 'otherA', 'F': None},
          'properties': ('p', 'otherp'),
          'links': {'otherA': ('p',), 'F': ('otherp',)}},
}
SHOWN = {'otherA': 'A', 'otherC': 'C', 'otherp': 'p'}


def base_package(which):
    spec = BASES[which]
    made = {}
    for name, base in spec['objects'].items():
        attrs = {'origin': which}
        if name in SHOWN:
            attrs['__get_namespace__'] = classmethod(
                lambda cls, name=name: EX + name)
        made[name] = type(SHOWN.get(name, name),
                          (made[base] if base else Root,), attrs)
    props = [linked_property(SHOWN.get(p, p), which, p)
             for p in spec['properties']]
    return JsonLdPackage(
        f'http://{which}/', tuple(made.values()), tuple(props),
        {EX + o: tuple(EX + 'dfn-' + p for p in ps)
         for o, ps in spec['links'].items()})


class Packed:
    """What a package has to contain: origin and base of each class, origin of
    each property, properties linked to each class, and those linked before."""

    def __init__(self, objects, properties, links, ever):
        self.objects, self.properties = objects, properties
        self.links, self.ever = links, ever

    @classmethod
    def base(cls, which):
        spec = BASES[which]
        links = {o: frozenset(p) for o, p in spec['links'].items()}
        return cls({o: (which, b, b) for o, b in spec['objects'].items()},
                   {p: which for p in spec['properties']}, links,
                   {(which, o): p for o, p in links.items()})

    def __add__(self, other):
        ever = {k: self.ever.get(k, frozenset()) | other.ever.get(
            k, frozenset()) for k in {**self.ever, **other.ever}}
        links = {o: self.links.get(o, frozenset()) | other.links.get(
            o, frozenset()) for o in {**self.links, **other.links}}
        # what derives from a replaced class does not derive from the new one
        objects = {**{o: (origin, None if kin in other.objects else kin, base)
                      for o, (origin, kin, base) in self.objects.items()},
                   **other.objects}
        for o, ps in links.items():
            k = objects[o][0], o
            ever[k] = ever.get(k, frozenset()) | ps
        return Packed(objects, {**self.properties, **other.properties},
                      links, ever)

    def __sub__(self, other):
        return Packed(
            {o: (origin, None if kin in other.objects else kin, base)
             for o, (origin, kin, base) in self.objects.items()
             if o not in other.objects},
            {p: v for p, v in self.properties.items()
             if p not in other.properties},
            {o: frozenset(p for p in ps if p not in other.properties)
             for o, ps in self.links.items() if o not in other.objects},
            self.ever)

    def error(self, package):
        return self.class_error(package, package.objects,
                                lambda o: package[EX + o]) or \
            self.property_error(package)

    def property_error(self, package):
        want = {EX + 'dfn-' + p for p in self.properties}
        got = [p.__get_namespace__() for p in package.properties]
        if len(got) != len(want) or set(got) != want:
            return f'the properties are {got}, expected {want}'
        for p, origin in self.properties.items():
            cls = package[EX + 'dfn-' + p]
            if cls is None or cls.__name__ != SHOWN.get(
                    p, p).title() + origin:
                return f'property {p} is {cls}, expected that of {origin}'
        return None

    def class_error(self, package, objects, find):
        want = {EX + o for o in self.objects}
        got = [c.__get_namespace__() for c in objects]
        if len(got) != len(want) or set(got) != want:
            return f'the classes are {sorted(got)}, expected {sorted(want)}'
        for o, (origin, kin, base) in self.objects.items():
            cls = find(o)
            if cls not in objects or cls.origin != origin or \
                    cls.__name__ != SHOWN.get(o, o):
                return f'{o} is that of {cls.origin}, expected {origin}'
            if kin and not issubclass(cls, find(kin)):
                return f'{o} does not derive from {kin} any more'
            must = set(self.links.get(o, ()))
            may = set(self.ever.get((origin, o), ()))
            if base:
                may |= set(self.ever.get((origin, base), ()))
                if kin:
                    must |= set(self.links.get(kin, ()))
            have = set(cls.__get_properties__()) - {'acontext',
                                                    '__namespace__'}
            names = {SHOWN.get(p, p) for p in must}
            if not names <= have <= names | {SHOWN.get(p, p) for p in may}:
                return f'{o} has properties {have}, expected {must}'
            obj = cls()
            for p in must:
                attr = SHOWN.get(p, p)
                setattr(obj, attr, 'v')
                value = f'{self.properties[p]}:v'
                if getattr(obj, attr) != value or \
                        obj.data().get(attr) != value:
                    return (f'{p} of {o} gives {getattr(obj, attr)}, expected '
                            f'{value}')
        return None


def sums(leaves, most):
    """Every way to add and subtract up to ``most`` packages: trees."""
    if most == 1:
        return list(leaves)
    found = list(leaves)
    for k in range(1, most):
        for left in sums_of(leaves, k):
            for right in sums_of(leaves, most - k):
                found += [('+', left, right), ('-', left, right)]
    return found


def sums_of(leaves, size):
    """Trees with exactly ``size`` leaves."""
    if size == 1:
        return list(leaves)
    return [(op, left, right) for k in range(1, size)
            for left in sums_of(leaves, k)
            for right in sums_of(leaves, size - k) for op in '+-']


def evaluate(tree, leaf, nodes=None):
    if isinstance(tree, str):
        value = leaf(tree)
    else:
        a, b = (evaluate(x, leaf, nodes) for x in tree[1:])
        value = a + b if tree[0] == '+' else a - b
    if nodes is not None:
        nodes.append(value)
    return value


def package_case(tree):
    """Packages added and subtracted; each one on the way stays right."""
    packages, packed = [], []
    bases = {}
    evaluate(tree, lambda w: bases.setdefault(w, base_package(w)), packages)
    evaluate(tree, Packed.base, packed)
    for i, (got, want) in enumerate(zip(packages, packed)):
        err = want.error(got)
        if err:
            return f'step {i} of {len(packed)}: {err}', len(packed), 1
    return None, len(packed), len(packed)


def data_of(o):
    return {'@context': {'ex': EX, 'p': 'ex:p', 'q': 'ex:q', 'r': 'ex:r'},
            '@type': 'ex:' + o, 'p': 'v', 'q': 'v', 'r': 'v'}


def engine_error(engine, packed):
    """How an engine differs from what it has to be."""
    for o in 'ABCDE':
        kind, got = outcome(engine.from_json, data_of(o))
        if o not in packed.objects:
            if kind == 'ok' or not isinstance(got, ValueError):
                return f'data of class {o} {show((kind, got))}'
            if hasattr(engine, o):
                return f'the engine has {o}'
            continue
        if kind != 'ok':
            return f'data of class {o} {show((kind, got))}'
        if type(got) is not getattr(engine, o, None):
            return f'{o} became {type(got)}'
        if got.origin != packed.objects[o][0]:
            return (f'{o} is that of {got.origin}, expected '
                    f'{packed.objects[o][0]}')
        if got.__jsonld_engine__ is not engine:
            return f'{o} belongs to another engine'
    return packed.class_error(
        engine.package, engine.package.objects,
        lambda o: getattr(engine, o))


# engines: ways to make them, and what they then have to contain
def engine_case(case):
    first, steps = case
    made = [JsonLdEngine([base_package(w) for w in first])]
    packs = [[Packed.base(w) for w in first]]
    for op, kind, what in steps:
        packages = [base_package(w) for w in what]
        others = [Packed.base(w) for w in what]
        operand = packages[0] if kind == 'package' else JsonLdEngine(packages)
        if op == '+':
            made.append(made[-1] + operand)
            packs.append(packs[-1] + others)
        else:
            made.append(made[-1] - operand)
            new = packs[-1]
            for o in others:
                new = [p - o for p in new]
            packs.append(new)
        if kind == 'engine':
            err = engine_error(operand, total(others))
            if err:
                return f'the operand: {err}'
    for i, (got, want) in enumerate(zip(made, packs)):
        if got.packages and len(got.packages) != len(want):
            return f'engine {i} has {len(got.packages)} packages'
        err = engine_error(got, total(want))
        if err:
            return f'engine {i}: {err}', len(made), 1
    return None, len(made), len(made)


def total(packs):
    result = packs[0]
    for p in packs[1:]:
        result = result + p
    return result


def refused_case(case):
    what, other = case
    p = base_package('P')
    x = p if what == 'package' else JsonLdEngine(p)
    bad = {'text': 'P', 'none': None, 'number': 5, 'list': [p],
           'class': JsonLdPackage, 'engine': JsonLdEngine(base_package('Q'))
           }[other]
    for fn in (lambda: x + bad, lambda: x - bad):
        kind, got = outcome(fn)
        if kind == 'ok' or not isinstance(got, TypeError):
            return show((kind, got))
    return Packed.base('P').error(p)


def namespace_case(ns):
    """Packages without a proper name, and changing what cannot be changed."""
    kind, got = outcome(JsonLdPackage, ns)
    if not isinstance(ns, str):
        if kind == 'ok' or not isinstance(got, TypeError):
            return show((kind, got))
        return None
    if kind != 'ok' or got.namespace != ns or got.objects or got.properties:
        return f'an empty package: {show((kind, got))}'
    p = base_package('P')
    for name in ('namespace', 'objects', 'properties'):
        before = getattr(p, name)
        kind, err = outcome(setattr, p, name, ns if name == 'namespace'
                            else (Root,))
        if kind == 'ok' or not isinstance(err, AttributeError) or \
                getattr(p, name) != before:
            return f'{name}: {show((kind, err))}'
    for missing in ((EX + 'A', EX + 'dfn-none'), (EX + 'None', EX + 'dfn-p')):
        kind, err = outcome(JsonLdPackage, 'x', p.objects, p.properties,
                            {missing[0]: (missing[1],)})
        if kind == 'ok' or not isinstance(err, ValueError):
            return f'linking {missing}: {show((kind, err))}'
    if p[EX + 'None'] is not None or p[[EX + 'A', EX + 'None', EX + 'dfn-p']] \
            != [p[EX + 'A'], None, p[EX + 'dfn-p']]:
        return 'selecting from a package'
    names = [EX + 'A', EX + 'None', EX + 'dfn-p']
    for box in (tuple, iter, lambda v: (x for x in v)):
        if p[box(names)] != p[names]:
            return f'selecting by {box} gives {p[box(names)]}'
    kind, err = outcome(lambda: p[[EX + 'A', 5]])
    if kind == 'ok' or not isinstance(err, ValueError):
        return f'selecting with a number: {show((kind, err))}'
    if outcome(JsonLdEngine, ())[0] == 'ok' or outcome(JsonLdEngine, [])[
            0] == 'ok':
        return 'an engine without packages'
    return None


class Links(Driver):
    """Properties linked to classes and removed again after the package was
    made, with objects made before and after."""
    name = 'links'
    # properties linked when the package is made, and whether lists of
    # properties were asked for (and kept) before
    configs = tuple({'links': links, 'used': used}
                    for links in ((), (('A', 'p'),), (('B', 'p'), ('A', 'q')))
                    for used in (False, True))
    classes = {'A': (), 'B': ('A',), 'C': (), 'D': ('B', 'A')}

    def build(self, cfg):
        made = {'A': type('A', (Root,), {})}
        made['B'] = type('B', (made['A'],), {})
        made['C'] = type('C', (Root,), {})
        props = [linked_property('p', 'first'), linked_property('q', 'first')]
        links = {}
        for c, name in cfg['links']:
            links.setdefault(EX + c, []).append(EX + 'dfn-' + name)
        pack = JsonLdPackage('http://x/', tuple(made.values()), tuple(props),
                             links)
        cls = {c: pack[EX + c] for c in made}
        cls['D'] = type('D', (cls['B'],), {})    # not of the package
        other = JsonLdPackage('http://y/', (), (linked_property('p', 'other'),))
        obj = {c: k() for c, k in cls.items()} if cfg['used'] else {}
        return pack, cls, obj, other

    def initial(self, cfg):
        return tuple(sorted((c, n, 'first') for c, n in cfg['links']))

    def ops(self, cfg, model):
        for c in 'ABC':
            for n in 'pq':
                yield 'link', c, n
                yield 'remove', c, n
            yield 'other', c
        yield 'links', 'B', 'qp'
        yield 'links', 'A', 'q'
        yield 'remove', 'D', 'p'
        yield 'links', 'B', 'x'
        yield 'links', 'X', 'p'
        yield 'none', 'A'
        yield 'two', 'A'
        yield 'new', 'B'

    def apply(self, cfg, impl, op):
        pack, cls, obj, other = impl
        if op[0] == 'link':
            pack.link_property(pack[EX + 'dfn-' + op[2]], cls[op[1]])
        elif op[0] == 'other':
            pack.update_property_link(other[EX + 'dfn-p'], cls[op[1]])
        elif op[0] == 'links':
            pack.link_properties([EX + 'dfn-' + n for n in op[2]], EX + op[1])
        elif op[0] == 'new':
            obj[op[1]] = cls[op[1]]()
        elif op[0] in ('none', 'two'):
            pack.link_property(type('Odd', (JsonProperty,), {
                n: contextualproperty(lambda self: 'odd')
                for n in ('p', 'q') if op[0] == 'two'}), cls[op[1]])
        else:
            pack.remove_property_link(op[2], cls[op[1]])

    def step(self, cfg, model, op, out):
        bad = f'{op} on {model} {show(out)}'
        owned = {(c, n): origin for c, n, origin in model}
        want = None
        if op[0] == 'link':
            owned[op[1:]] = 'first'
        elif op[0] == 'other':
            owned[op[1], 'p'] = 'other'
        elif op[0] in ('none', 'two') or set(op[1:]) & {'x', 'X'}:
            want = ValueError
        elif op[0] == 'links':
            owned.update({(op[1], n): 'first' for n in op[2]})
        elif op[0] == 'remove' and op[1:] not in owned:
            want = AttributeError
        elif op[0] == 'remove':
            del owned[op[1:]]
        if want is None and out[0] == 'exc' or want is not None and (
                out[0] == 'ok' or not isinstance(out[1], want)):
            return model, bad
        return tuple(sorted((*k, v) for k, v in owned.items())), None

    def observe(self, cfg, impl, model):
        pack, cls, old, _ = impl
        owned = {(c, n): origin for c, n, origin in model}
        for c, k in cls.items():
            shown = {}
            for base in (c, *self.classes[c]):
                for n in 'pq':
                    if (base, n) in owned:
                        shown.setdefault(n, owned[base, n])
            listed = set(k.__get_properties__()) & {'p', 'q'}
            if listed != set(shown):
                return f'{c} lists {listed}, not {shown}: {model}'
            for o in [k()] + ([old[c]] if c in old else []):
                for n in 'pq':
                    if hasattr(o, n) != (n in shown):
                        return f'{c} has {n}: {hasattr(o, n)}, not {shown}'
                values = {n: f'{shown[n]}:{c}{n}' for n in shown}
                for n in shown:
                    setattr(o, n, c + n)
                got = {n: v for n, v in o if n in ('p', 'q')}
                if got != values:
                    return f'iterating over a {c} gives {got}, not {values}'
                got = {n: v for n, v in o.data().items() if n in ('p', 'q')}
                if got != values:
                    return f'the data of a {c} is {got}, not {values}'
                for n in 'pq':
                    kind, got = outcome(lambda: o[n])
                    if (kind == 'ok') != (n in shown) or \
                            kind == 'ok' and got != {n: values[n]}:
                        return f'[{n!r}] of a {c}: {show((kind, got))}'
                for n in shown:
                    doc = getattr(k, n).__doc__
                    if doc != f'The {n} of {shown[n]}.':
                        return f'the documentation of {c}.{n} is {doc!r}'
                    with o.switch_context('shout'):
                        got = getattr(o, n)
                    if got != values[n].upper():
                        return f'in another context, {n} of a {c} is {got!r}'
                    delattr(o, n)
                    if getattr(o, n) != f'{shown[n]} deleted':
                        return f'deleting {n} of a {c}: {getattr(o, n)!r}'
                # what was set must not stay for the next observation
                for n in 'pq':
                    vars(o).pop(f'_{n}_', None)
        return None


def c24(ctx):
    """Every sum and difference of up to three (four) packages with classes and
    properties in common, every intermediate one checked afterwards; engines
    made from, extended by and reduced by packages and engines; what cannot be
    combined is refused."""
    t = ctx.thorough
    trees = [x for n in range(1, 5 if t else 4) for x in sums_of('PQRS', n)]
    trees += [x for n in range(1, 4) for x in sums_of('PQT', n)
              if 'T' in repr(x)]

    def job(c, i):
        cases(c, 'packages', trees[i::16], package_case)
    firsts = [f for n in (1, 2, 3 if t else 2) for f in permutations('PQRS', n)]
    firsts = list(dict.fromkeys(firsts))
    single = [(op, 'package', w) for op in '+-' for w in 'PQRS']
    double = [(op, 'engine', w) for op in '+-' for n in (1, 2)
              for w in permutations('PQRS', n)]
    space = [(f, ()) for f in firsts] + \
            [(f, (s,)) for f in firsts for s in single + double] + \
            [(f, (s, u)) for f in firsts[:16 if t else 8] for s in single
             for u in single + (double if t else [])]

    def engines(c, i):
        cases(c, 'engines', space[i::16], engine_case)
    parallel(ctx, [(job, i) for i in range(16)] +
             [(engines, i) for i in range(16)])
    cases(ctx, 'refused operands', [(w, o) for w in ('package', 'engine')
                                    for o in ('text', 'none', 'number', 'list',
                                              'class', 'engine')
                                    if (w, o) != ('engine', 'engine')],
          refused_case)

    def links(c, cfg):
        explore(c, Links(), depth=4 if t else 3, suffix=2 if t else 1,
                configs=[cfg])
    parallel(ctx, [(links, cfg) for cfg in Links.configs])
    cases(ctx, 'construction', ['http://x/', 'x', None, 5, b'x', ('x',)],
          namespace_case)


CHECKS = {'C23': c23, 'C24': c24}
DRIVERS = {'links': Links}
CASES = {'copies': clone_case, 'adopted objects': adopt_case,
         'vocabulary': as2_case, 'packages': package_case,
         'engines': engine_case, 'refused operands': refused_case,
         'construction': namespace_case}
