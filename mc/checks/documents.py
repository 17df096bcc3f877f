"""Activity Streams documents: C20 (writing), C21 (loading and writing again),
C22 (types decide classes), C25 (links), C26 (ranges of properties)."""
import json
import os
from copy import deepcopy
from datetime import datetime, timedelta, timezone
from itertools import combinations, product

from mc import as2
from mc.core import Driver, cases, explore, outcome, parallel, show

as2.install()

from activitystreams import create_engine, create_package, models  # noqa: E402
from jsonld import ApplicationActivityJson, JsonLdEngine, JsonLdPackage  # noqa: E402
from jsonld import JsonProperty, contextualproperty  # noqa: E402

U = 'http://example.org/'
REPO = os.environ.get('VERIF_REPO', '/repo')
_engine = []


def engine():
    if not _engine:
        _engine.append(create_engine())
    return _engine[0]


def split(ctx, name, space, fn, n=8, key=None):
    """Check the cases of a space in parallel."""
    space = list(space)

    def job(c, i):
        cases(c, name, space[i::n], fn, key)
    parallel(ctx, [(job, i) for i in range(n)])


# ------------------------------------------------------------------------- C21
def instant(text):
    """The moment a time text means, as text; None if it is not one."""
    try:
        t = datetime.fromisoformat(text)
    except (TypeError, ValueError):
        return None
    if t.tzinfo is None:
        t = t.replace(tzinfo=timezone.utc)
    return t.astimezone(timezone.utc).isoformat()


class Unsupported(Exception):
    """Not part of what the property covers."""


def type_of(doc):
    t = doc.get('type')
    if isinstance(t, str) and t in as2.PARENTS:
        return t
    raise Unsupported(f'type {t!r}')


def normal_value(prop, value):
    kind, functional = as2.RANGES[prop]
    if value is None:
        return None
    if isinstance(value, list):
        if functional:
            raise Unsupported(prop)
        return [normal_value(prop, v) for v in value]
    if isinstance(value, dict):
        if kind in ('text', 'number', 'count', 'time', 'duration'):
            if prop == 'name':
                return value
            raise Unsupported(prop)
        if set(value) <= {'href', 'mediaType', 'rel', 'name'} \
                and 'href' in value:
            return value['href']
        t = type_of(value)
        if as2.is_a(t, 'Link'):
            if 'href' not in value:
                raise Unsupported('link without href')
            return value['href']
        return normal(value)
    if kind in ('time', 'closed') and instant(value):
        return ('instant', instant(value))
    if kind in ('number', 'positive number', 'count') and \
            not isinstance(value, (int, float)):
        raise Unsupported(prop)
    if kind in ('reference', 'page', 'collection'):
        if not isinstance(value, str) or '://' not in value and \
                '@' not in value:
            raise Unsupported(f'{prop} {value!r}')
    return value


def normal(doc, top=False):
    """What writing the object loaded from a document has to give."""
    t = type_of(doc)
    known = as2.properties_of(t)
    out = {'type': t}
    for key, value in doc.items():
        if key in ('type', '@context'):
            continue
        if key not in known:
            if not top:             # it is ignored; say so for unknown names
                raise Unsupported(key)
            raise Unsupported(key)
        if value is not None:
            out[key] = normal_value(key, value)
    if as2.is_a(t, 'Collection') and 'totalItems' not in out:
        items = out.get('orderedItems', out.get('items'))
        out['totalItems'] = len(items) if isinstance(items, list) else 0
    if t == 'OrderedCollectionPage':
        out.setdefault('startIndex', 0)
    if top:
        out['@context'] = doc['@context']
    return out


def canonical(out):
    """A written document with its times as instants."""
    if isinstance(out, dict):
        return {k: [canonical_time(k, v) for v in val]
                if isinstance(val, list) else canonical_time(k, val)
                for k, val in out.items()}
    return out


def canonical_time(key, value):
    if isinstance(value, dict):
        return canonical(value)
    if as2.RANGES.get(key, ('',))[0] in ('time', 'closed') and instant(value):
        return ('instant', instant(value))
    return value


def matches(obj, doc):
    """The classes of an object and all objects in it; error or None."""
    t = doc['type']
    if type(obj) is not getattr(engine(), t):
        return f'{t} became {type(obj)}'
    for key, value in doc.items():
        if key not in as2.properties_of(t):
            continue
        got = getattr(obj, key)
        many = isinstance(value, list)
        for g, v in zip(got if many else [got], value if many else [value]):
            if isinstance(v, dict) and v.get('type') in as2.PARENTS:
                err = matches(g, v)
                if err:
                    return f'{key}: {err}'
            elif isinstance(v, str) and instant(v) and \
                    as2.RANGES[key][0] in ('time', 'closed'):
                if not isinstance(g, datetime) or instant(g.isoformat()) \
                        != instant(v):
                    return f'{key} {v!r} is read as {g!r}'
            elif as2.RANGES[key][0] in ('text', 'number', 'positive number',
                                        'count', 'duration') and v is not None:
                if g != v or type(g) is not type(v):
                    return f'{key} {v!r} is read as {g!r}'
            elif isinstance(v, str) and key in as2.LINKED:
                if key == 'url' and isinstance(g, str):
                    g = type('', (), {'href': g})
                if getattr(g, 'href', None) != v:
                    return f'{key} {v!r} is read as {g!r}'
    return None


def embeds(value):
    return isinstance(value, dict) or isinstance(value, list) and any(
        isinstance(v, dict) for v in value)


def in_code(doc, want):
    """The same object created in code, if nothing is embedded in it."""
    props = {k: v for k, v in doc.items() if k not in ('type', '@context')}
    if any(embeds(v) for v in props.values()):
        return None
    made = getattr(engine(), doc['type'])(**{'id': None, **props})
    if canonical(made.data()) != {**want, '@context': as2.AS2}:
        return f'created in code it is written as {made.data()}'
    return matches(made, doc)


def document_case(doc):
    want = normal(doc, True)
    given = deepcopy(doc)
    obj = engine().from_json(given)
    if given != doc:
        return f'loading changed the given data to {given}'
    text = obj.json()
    got = json.loads(text)
    if canonical(got) != want:
        return f'written as {got}, expected {want}'
    if canonical(obj.data()) != want:
        return f'data is {obj.data()}'
    if json.loads(str(obj)) != got:
        return f'str is {obj}'
    err = matches(obj, doc)
    if err:
        return err
    if as2.is_a(doc['type'], 'Collection'):
        items = [obj.orderedItems, obj.items] if as2.is_a(
            doc['type'], 'OrderedCollection') else [obj.items]
        items = next((i for i in items if i is not None), [])
        items = items if isinstance(items, list) else [items]
        for g, w in zip(list(obj), items):
            if g is not w:
                return f'iteration gives {g}, expected {w}'
        if len(list(obj)) != len(items):
            return f'iteration gives {list(obj)}, expected {items}'
    err = in_code(doc, want)
    if err:
        return err
    again = engine().from_json(text)
    if json.loads(again.json()) != got or type(again) is not type(obj):
        return f'written again as {again.json()}, not {text}'
    return None


def given_case(case):
    """Loading does not change what it is given, even if it is refused."""
    name, context, more = case
    data = {'@context': context, 'type': name, **more}
    if context == 'absent':
        del data['@context']
    kept = deepcopy(data)
    kind, obj = outcome(engine().from_json, data)
    if data != kept or list(data) != list(kept):
        return f'loading ({show((kind, obj))}) changed the data to {data}'
    kind, again = outcome(engine().from_json, data)
    if kind == 'ok' and again.json() != obj.json():
        return f'loaded again: {again.json()}, not {obj.json()}'
    return None


def note(i=0, **more):
    return {'type': 'Note', 'id': f'{U}n{i}', 'content': f'c{i}', **more}


FORMS = {
    'reference': [U + 'a', [U + 'a', U + 'b'], note(), [note(), U + 'a'],
                  {'type': 'Link', 'href': U + 'l', 'name': 'L'},
                  [{'type': 'Mention', 'href': U + 'm'}, note(1), note(2)],
                  'joe@example.org', [], None,
                  note(to=[U + 'x', note(3)], attachment=note(4))],
    'page': [U + 'p', {'type': 'CollectionPage', 'items': [note()]},
             {'type': 'OrderedCollectionPage', 'orderedItems': [U + 'q']},
             {'type': 'Link', 'href': U + 'l'}, None],
    'collection': [U + 'c', {'type': 'Collection', 'totalItems': 5},
                   {'type': 'OrderedCollection', 'orderedItems': [note()]}],
    'replies': [{'type': 'Collection', 'items': [note(), note(1)]}, None,
                {'type': 'OrderedCollection', 'totalItems': 0}],
    'url': [U + 'u', [U + 'u', U + 'v'], {'type': 'Link', 'href': U + 'l'},
            {'href': U + 'w', 'mediaType': 'text/html'}, 'relative', None],
    'closed': [True, False, '2016-05-10T00:00:00Z', U + 'c', note(),
               '2016-05-10T00:00:00+02:00', None],
    'text': ['t', '', 'ünï "q" \\ \n', U + 'x', None],
    'number': [0, 1, -1, 0.0, 12.5, -0.25, 10 ** 12, None],
    'positive number': [0, 1, 0.5, None],
    'count': [0, 1, 250, None],
    'time': ['2014-12-31T23:00:00Z', '2014-12-31T23:00:00-08:00',
             '2015-01-31T06:30:59.25Z', '2015-01-31T06:30:00.000001+05:30',
             '2015-01-31T06:30Z', None],
    'duration': ['PT5S', 'P1Y2M3DT4H5M6S', None],
    'object or text': ['http://purl.org/x/acquaintanceOf', 'word', note(),
                       None],
    'object': [note(), {'type': 'Person', 'id': U + 'p', 'name': 'P'}, None],
}


def forms(prop):
    kind, functional = as2.RANGES[prop]
    for f in FORMS[kind]:
        if functional and isinstance(f, list):
            continue
        if prop == 'id' and f is None:      # not valid JSON-LD
            continue
        if kind == 'reference' and functional and f == []:
            continue
        yield f
    if kind == 'text' and not functional:
        yield ['a', 'b']
    if prop == 'name':
        yield {'en': 'x', 'de': 'y'}


def doc(t, **props):
    d = {'@context': as2.AS2, 'type': t}
    if 'id' not in props:
        d['id'] = U + t
    d.update(props)
    return d


def full(t, skip=(), which=0):
    """A document with every property of a type."""
    found = {}
    for p in as2.properties_of(t):
        if p in skip or p == 'id' or (p == 'items' and as2.is_a(
                t, 'OrderedCollection')):
            continue
        all_forms = list(forms(p))
        found[p] = all_forms[which % len(all_forms)]
    return found


def samples():
    folder = os.path.join(REPO, 'sample_data')
    found = []
    for name in sorted(os.listdir(folder)):
        if not name.endswith('.json') or name == 'package.json':
            continue
        try:
            with open(os.path.join(folder, name)) as f:
                d = json.load(f)
            if d.get('@context') != as2.AS2:
                continue
            normal(d, True)
        except (Unsupported, ValueError, AttributeError):
            continue
        found.append(d)
    return found


def c21(ctx):
    """Documents of every type with every property in every form (single, list,
    embedded, nested), pairs of properties, complete documents, every type
    embedded in every reference, and the specification's examples: loaded,
    compared in classes and values, written, and loaded and written again."""
    t = ctx.thorough
    space = [doc(n, **{p: f}) for n in as2.PARENTS
             for p in as2.properties_of(n) for f in forms(p)]
    split(ctx, 'one property', space, document_case)
    few = list(as2.PARENTS) if t else ['Note', 'Link', 'Question', 'Place',
                                       'OrderedCollectionPage', 'Create']
    space = []
    for n in few:
        for p, q in combinations(as2.properties_of(n), 2):
            if {p, q} == {'items', 'orderedItems'}:
                continue
            for i, j in ((0, 0), (2, 2)) if not t else ((0, 0), (1, 2), (2, 1)):
                fp, fq = list(forms(p)), list(forms(q))
                space.append(doc(n, **{p: fp[i % len(fp)],
                                       q: fq[j % len(fq)]}))
    split(ctx, 'two properties', space, document_case)
    space = [doc(n, **full(n, which=i)) for n in as2.PARENTS
             for i in range(8 if t else 4)]
    split(ctx, 'complete documents', space, document_case)
    space = [doc(n, **{p: form({'type': m, 'id': U + 'in',
                                **({'href': U + 'h'} if as2.is_a(m, 'Link')
                                   else {})})})
             for n in (as2.PARENTS if t else few) for m in as2.PARENTS
             for p in as2.properties_of(n)
             if as2.RANGES[p][0] == 'reference' or (
                 as2.RANGES[p][0] == 'page' and as2.is_a(
                     m, 'CollectionPage', 'Link'))
             for form in (lambda x: x, lambda x: [x, U + 'o'])
             if not (as2.RANGES[p][1] and isinstance(form(1), list))]
    split(ctx, 'embedded', space, document_case)
    deep = []
    for a, b in product(('attachment', 'to', 'replies', 'image'), repeat=2):
        for top in ('Note', 'Announce', 'Collection'):
            inner = note(1)
            for p in (b, a):
                inner = note(2, **{p: {'type': 'Collection', 'items': [inner]}
                                   if p == 'replies' else inner})
            deep.append(doc(top, tag=[inner, {'type': 'Create', 'actor':
                                              U + 'x', 'object': inner}]))
    split(ctx, 'nested', deep, document_case)
    split(ctx, 'specification examples', samples(), document_case)
    same = [doc(n, **{p: x}) for n in few for p in as2.properties_of(n)
            if as2.RANGES[p][0] == 'reference' and not as2.RANGES[p][1]
            for x in ([note(1), note(1)], [U + 'a', U + 'a', U + 'b'],
                      [U + 'b', note(1), U + 'b', note(2), note(1)])]
    split(ctx, 'equal members', same, document_case)
    split(ctx, 'given data', [
        (n, c, more) for n in few for c in ('absent', None, '', [], {},
                                            as2.AS2, [as2.AS2])
        for more in ({}, {'name': 'x'}, {'attachment': [note(1)]}) if
        n != 'Link' or len(more) == 0], given_case)


# ------------------------------------------------------------------------- C22
NS = as2.AS2 + '#'
EX = 'http://example.org/ns#'
as2.EXTRA_CONTEXTS['http://example.org/context'] = {'@context': {
    'ex': EX, 'type': '@type', 'Thing': 'ex:Thing', 'Memo': NS + 'Note',
    'Note': 'ex:Unknown', 'name': NS + 'name', 'tag': NS + 'tag'}}


def extended():
    """An engine with a class of another vocabulary besides those of AS2."""
    if len(_engine) < 2:
        engine()
        package = create_package()

        class Thing(package[NS + 'Object']):
            type = 'Thing'

            @classmethod
            def __get_namespace__(cls):
                return EX + 'Thing'
        other = JsonLdPackage(namespace=EX, objects=(Thing,))
        _engine.append(JsonLdEngine((package, other)))
    return _engine[1]


CONTEXTS = {
    'plain': as2.AS2, 'list': [as2.AS2], 'http': 'http' + as2.AS2[5:],
    'aliases': [as2.AS2, {'Memo': 'as:Note', 'ex': EX, 'Thing': 'ex:Thing',
                          'Nothing': 'ex:Nothing', 'kind': '@type'}],
    'redefined': [as2.AS2, {'Note': EX + 'Nothing', 'Person': 'as:Note'}],
    'inline': {'type': '@type', 'a': NS, 'ex': EX, 'N': NS + 'Note',
               'Thing': EX + 'Thing', 'name': NS + 'name',
               'tag': NS + 'tag'},
    'other': 'http://example.org/context',
    'none': None,
}
# what a type written like this means in a context
WRITTEN = {
    'plain': {'Note': 'Note', 'as:Note': 'Note', NS + 'Person': 'Person',
              'Memo': None, EX + 'Thing': 'Thing', 'Thing': None,
              'note': None, 'OrderedCollectionPage': 'OrderedCollectionPage',
              EX + 'Nothing': None, NS + 'Nothing': None, NS: None,
              'Mention': 'Mention', 'Link': 'Link', 'Object': 'Object'},
    'aliases': {'Memo': 'Note', 'Note': 'Note', 'Thing': 'Thing',
                'ex:Thing': 'Thing', EX + 'Thing': 'Thing', 'Nothing': None,
                'as:Person': 'Person', 'as:Thing': None},
    'redefined': {'Note': None, 'Person': 'Note', NS + 'Person': 'Person',
                  'as:Note': 'Note', EX + 'Thing': 'Thing'},
    'inline': {'N': 'Note', 'a:Person': 'Person', 'Thing': 'Thing',
               'Note': None, 'ex:Nothing': None, NS + 'Note': 'Note'},
    'other': {'Memo': 'Note', 'Thing': 'Thing', 'Note': None,
              'ex:Thing': 'Thing', NS + 'Note': 'Note'},
}
WRITTEN['list'] = WRITTEN['http'] = WRITTEN['none'] = WRITTEN['plain']
KEYWORD = {'plain': ('type', '@type'), 'aliases': ('type', '@type', 'kind'),
           'other': ('type', '@type'), 'inline': ('type', '@type')}


def type_case(case):
    """A type written in some way, at the top of the data or inside it."""
    context, key, written, listed, place = case
    want = WRITTEN[context][written]
    # the first type counts
    types = {True: [written], False: written, 'twice': [written, written],
             'two': [written, NS + 'Image'],
             'one unknown': [written, EX + 'Nothing', EX + 'None']}[listed]
    inner = {key: types, 'name': 'n'}
    top = 'Memo' if context in ('aliases', 'other') else 'N' \
        if context == 'inline' else NS + 'Note'
    data = {'top': inner, 'embedded': {'type': top, 'tag': inner},
            'in a list': {'type': top, 'tag': [inner, {**inner}]},
            'deep': {'type': top, 'tag': {'type': top, 'tag': [inner]}},
            'own context': {'type': 'Note', '@context': as2.AS2,
                            'tag': [{'@context': CONTEXTS[context], **inner}]}
            }[place]
    if '@context' not in data and CONTEXTS[context] is not None:
        data = {'@context': CONTEXTS[context], **data}
    e = extended()
    for given in (data, json.dumps(data)):
        kept = deepcopy(given)
        kind, obj = outcome(e.from_json, given)
        if given != kept:
            return f'loading changed the data to {given}'
        if want is None and place == 'top':
            if kind == 'ok' or not isinstance(obj, ValueError):
                return f'unknown type: {show((kind, obj))}'
            continue
        if kind != 'ok':
            return show((kind, obj))
        found = [obj]
        if place != 'top':
            if type(obj) is not e.Note:
                return f'{place}: the outer object is a {type(obj)}'
            found = obj.tag if place != 'deep' else obj.tag.tag
            found = found if isinstance(found, list) else [found]
            if len(found) != (2 if place == 'in a list' else 1):
                return f'{place}: {found}'
        for f in found:
            if want is None:
                if isinstance(f, ApplicationActivityJson):
                    return f'{place}: unknown type became {type(f)}'
                continue
            if type(f) is not getattr(e, want):
                return f'{place}: {want} became {type(f)}'
            if f.name != 'n':
                return f'{place}: the name is {f.name!r}'
            if f.__jsonld_engine__ is not e:
                return f'{place}: the object belongs to another engine'
    return None


class Loads(Driver):
    """Classes registered with an engine one after the other, and data of all
    types loaded, one by one and several at once."""
    name = 'registrations'
    NAMES = (EX + 'A', EX + 'B', 'default')

    def build(self, cfg):
        def cls(name, ns):
            class Made(ApplicationActivityJson):
                def __init__(self, acontext=None, **kwargs):
                    super().__init__(acontext)
                    self.given = kwargs

                @property
                def text(self):
                    return self.given.get('text')

                @classmethod
                def __get_namespace__(c):
                    return ns
            Made.__name__ = name
            return Made
        packages = [JsonLdPackage(namespace='http://p/', objects=(
            cls('First', EX + 'First'),))]
        if cfg == 'with A':
            packages.append(JsonLdPackage(namespace='http://q/', objects=(
                cls('InPackage', EX + 'A'),)))
        e = JsonLdEngine(packages)
        return e, {(n, i): cls(f'{n[-1]}{i}', n) for n in self.NAMES
                   for i in (0, 1)}

    def initial(self, cfg):
        return ((EX + 'A', 'package'),) if cfg == 'with A' else ()

    configs = ('empty', 'with A')

    def ops(self, cfg, model):
        for n in self.NAMES:
            for i in (0, 1):
                yield 'register', n, i

    def apply(self, cfg, impl, op):
        e, made = impl
        e.register_class(op[1], made[op[1:]])

    def step(self, cfg, model, op, out):
        have = dict(model)
        if op[1] in have:
            if out[0] == 'ok' or not isinstance(out[1], ValueError):
                return model, f'registering again {show(out)}'
            return model, None
        have[op[1]] = op[2]
        return tuple(sorted(have.items(), key=str)), \
            None if out[0] == 'ok' else show(out)

    def observe(self, cfg, impl, model):
        e, made = impl
        have = dict(model)

        def data(t):
            return {'@context': {'ex': EX, 'text': 'ex:text'},
                    '@type': EX + t, 'text': t}

        def wanted(t):
            name = EX + t if EX + t in have or t == 'First' else 'default'
            if t == 'First':
                return e.First
            if name not in have:
                return None
            return e.InPackage if have[name] == 'package' \
                else made[name, have[name]]
        for t in ('First', 'A', 'B', 'Z'):
            want = wanted(t)
            seen = []
            for load in (lambda d: e.from_json(d),
                         lambda d: e.from_json(json.dumps(d)),
                         lambda d: e[json.dumps(d)]):
                kind, got = outcome(load, data(t))
                if want is None:
                    if kind == 'ok' or not isinstance(got, ValueError):
                        return f'{t}, not registered, {show((kind, got))}'
                elif kind != 'ok' or type(got) is not want or got.text != t:
                    return f'{t}: {show((kind, got))}, expected {want}'
                elif any(got is other for other in seen):
                    return f'{t}: the object loaded before is given again'
                seen.append(got)
        for ts in product(('First', 'A', 'Z'), repeat=2):
            want = [wanted(t) for t in ts]
            for box in (list, tuple):
                kind, got = outcome(lambda: e[box(json.dumps(data(t))
                                                  for t in ts)])
                if None in want:
                    if kind == 'ok' or not isinstance(got, ValueError):
                        return f'{ts}: {show((kind, got))}'
                elif kind != 'ok' or [type(g) for g in got] != want or \
                        [g.text for g in got] != list(ts):
                    return f'{ts}: {show((kind, got))}'
                elif got[0] is got[1]:
                    return f'{ts}: one object for both'
        text = json.dumps(data('First'))
        for bad in (5, None, {'a': 1}, [text, 5], [None, text], (text, {}),
                    {text}):
            kind, got = outcome(lambda: e[bad])
            if kind == 'ok' or not isinstance(got, TypeError):
                return f'engine[{bad!r}] {show((kind, got))}'
        if e[[]] != [] or e[()] != []:
            return f'engine[[]] is {e[[]]}'
        return None


def isolation_case(case):
    """Two engines made from the same classes: everything loaded by one is of
    its own classes, whatever was loaded by the other before."""
    order = case
    engines = [engine(), extended()]
    if engines[0].Note is engines[1].Note or issubclass(
            engines[0].Note, engines[1].Note):
        return 'the engines share classes'
    d = {'@context': as2.AS2, 'type': 'Create', 'actor': U + 'a',
         'object': {'type': 'Note', 'to': [U + 'x', {'type': 'Person'}],
                    'replies': {'type': 'Collection',
                                'items': [{'type': 'Image'}]}}}
    loaded = []
    for i in order:
        loaded.append((i, engines[i].from_json(d)))
        for j, obj in loaded:
            e = engines[j]
            found = [(obj, 'Create'), (obj.object, 'Note'),
                     (obj.object.to[0], 'Link'), (obj.object.to[1], 'Person'),
                     (obj.actor, 'Link'), (obj.object.replies, 'Collection'),
                     (obj.object.replies.items[0], 'Image')]
            for f, name in found:
                if type(f) is not getattr(e, name):
                    return f'{name} loaded by engine {j} is a {type(f)}'
    for name in as2.PARENTS:
        if getattr(models, name) in (getattr(engines[0], name),
                                     getattr(engines[1], name)):
            return f'{name} of the engine is the original class'
        for e in engines:
            for m in as2.PARENTS:
                if issubclass(getattr(e, name), getattr(e, m)) != as2.is_a(
                        name, m):
                    return f'{name} and {m} are not related as they should'
    return None


def c22(ctx):
    """Every way of writing a type (terms, aliases, prefixes, full names, other
    keywords, lists) in every context at every place; every history of
    registering classes; several engines of the same classes."""
    t = ctx.thorough
    space = [(c, k, w, l, p) for c in CONTEXTS
             for w in WRITTEN[c]
             for k in KEYWORD.get(c, ('type', '@type'))
             for l in (False, True, 'twice', 'two', 'one unknown')
             for p in ('top', 'embedded', 'in a list', 'deep', 'own context')
             if WRITTEN[c][w] or l in (False, True)
             if not (p == 'own context' and CONTEXTS[c] is None)]
    names = [('plain', 'type', n, False, p) for n in as2.PARENTS
             for p in ('top', 'embedded', 'in a list')]
    for n in as2.PARENTS:
        WRITTEN['plain'].setdefault(n, n)
    split(ctx, 'types', space + names, type_case)

    def job(c, cfg):
        explore(c, Loads(), 5 if t else 3, suffix=1, configs=[cfg])
    parallel(ctx, [(job, cfg) for cfg in Loads.configs])
    cases(ctx, 'engines', [o for n in range(1, 6 if t else 4)
                           for o in product((0, 1), repeat=n)],
          isolation_case)


# ------------------------------------------------------------------------- C25
URLS = (U + 'a', U + 'b')
JSON_TYPE = {'content-type': 'application/activity+json'}


def page(d):
    return 200, JSON_TYPE, json.dumps(d)


PAGES = {
    'nothing': None,
    'note': page({'@context': as2.AS2, 'type': 'Note', 'id': U + 'a',
                  'content': 'one', 'attributedTo': U + 'b',
                  'to': [U + 'b', U + 'a']}),
    'page': page({'@context': as2.AS2, 'type': 'OrderedCollectionPage',
                  'orderedItems': [U + 'b'], 'partOf': U + 'b'}),
    'html': (200, {'content-type': 'text/html'}, '<html></html>'),
    'gone': (410, {}, ''),
    'list': page([1, 2]), 'null': page(None), 'text': page('Note'),
    'unknown type': page({'@context': as2.AS2, 'type': 'Nothing'}),
    'no type': page({'@context': as2.AS2, 'content': 'x'}),
    'out of range': page({'@context': as2.AS2, 'type': 'Note',
                          'content': 5}),
    'context missing': page({'@context': 'http://nowhere/', 'type': 'Note'}),
    'not text': (200, JSON_TYPE, b'\xff\xfe\x00{'),
    'timeout': TimeoutError('harness'), 'broken': RuntimeError('harness'),
}
CONTENT = {'note': 'Note', 'page': 'OrderedCollectionPage'}
KINDS = ('url', 'link', 'foreign link', 'raw link', 'list', 'one in a list',
         'tuple', 'mention', 'object', 'email', 'mixed list', 'none')


def linking(kind, url):
    """(value to assign, what reading gives: None, an address that is not
    followed, (address, engine) that is, or a list; what is written)"""
    e, other = engine(), extended()
    if kind == 'url':
        return url, ('follow', url, e), url
    if kind == 'link':
        return e.Link(href=url, name='n'), ('follow', url, e), url
    if kind == 'foreign link':
        return other.Link(href=url), ('follow', url, other), url
    if kind == 'raw link':
        return models.Link(href=url), ('follow', url, e), url
    if kind in ('list', 'tuple'):
        v = [url, U + 'z']
        return (tuple(v) if kind == 'tuple' else v), \
            [('keep', x) for x in v], v
    if kind == 'one in a list':
        return [url], [('keep', url)], [url]
    if kind == 'mention':
        return e.Mention(href=url), ('keep', url), url
    if kind == 'email':
        return 'joe@example.org', ('keep', 'joe@example.org'), \
            'joe@example.org'
    if kind == 'none':
        return None, None, None
    note = e.OrderedCollectionPage(id=U + 'o')
    if kind == 'object':
        return note, note, None
    return [note, url], [note, ('keep', url)], None


def accepts(prop, kind):
    functional = as2.RANGES[prop][1]
    if prop == 'url' and kind in ('object', 'mixed list'):
        return False
    if prop == 'partOf' and kind == 'object':
        return True
    return not (functional and kind in ('list', 'one in a list', 'tuple',
                                        'mixed list'))


def check_link(got, want, served, depth=0):
    """What reading gave against what it has to give; error or None."""
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return f'read as {got!r}'
        for g, w in zip(got, want):
            err = check_link(g, w, served, depth)
            if err:
                return err
        return None
    if want is None:
        return None if got is None else f'None is read as {got!r}'
    if not isinstance(want, tuple):
        return None if got is want else f'an object is read as {got!r}'
    name = CONTENT.get(served.get(want[1])) if want[0] == 'follow' else None
    if name is None:
        if not isinstance(got, models.Link) or got.href != want[1]:
            return (f'the link to {want[1]}, where there is '
                    f'{served.get(want[1], "nothing")}, is read as {got!r}')
        return None
    url, e = want[1:]
    if type(got) is not getattr(e, name):
        return f'{url}, where there is a {name}, is read as {type(got)} {got}'
    if depth < 2:
        inner = {'note': [('attributedTo', ('follow', U + 'b', e)),
                          ('to', [('keep', U + 'b'), ('keep', U + 'a')]),
                          ('tag', None)],
                 'page': [('partOf', ('follow', U + 'b', e)),
                          ('orderedItems', [('keep', U + 'b')])]}[served[url]]
        for prop, w in inner:
            if prop == 'partOf' and served.get(U + 'b'):
                pass
            err = check_link(getattr(got, prop), w, served, depth + 1)
            if err:
                return f'{prop} of it: {err}'
    return None


class Links(Driver):
    """A property that is assigned links, addresses whose pages come and go,
    reading and writing in between."""
    name = 'links'

    def build(self, cfg):
        as2.Web.reset()
        t, prop = cfg
        return {'obj': getattr(engine(), t)(id=U + 'me')}

    def initial(self, cfg):
        return ('none', None), ()

    def ops(self, cfg, model):
        kinds = [k for k in KINDS if accepts(cfg[1], k)]
        for k in kinds:
            for u in URLS[:1 if k in ('none', 'object', 'email') else 2]:
                yield 'assign', k, u
        for u in URLS:
            for p in ('note', 'page', 'html', 'unknown type', 'nothing'):
                if dict(model[1]).get(u, 'nothing') != p:
                    yield 'serve', u, p

    def apply(self, cfg, impl, op):
        if op[0] == 'serve':
            if op[2] == 'nothing':
                as2.Web.pages.pop(op[1], None)
            else:
                as2.Web.pages[op[1]] = PAGES[op[2]]
            return
        value, impl['want'], impl['out'] = linking(*op[1:])
        setattr(impl['obj'], cfg[1], value)

    def step(self, cfg, model, op, out):
        err = None if out[0] == 'ok' else show(out)
        if op[0] == 'serve':
            served = dict(model[1])
            served[op[1]] = op[2]
            return (model[0], tuple(sorted(served.items()))), err
        return (op[1:], model[1]), err

    def observe(self, cfg, impl, model):
        served = dict(model[1])
        return read_and_write(impl['obj'], cfg[1], impl.get('want'),
                              impl.get('out'), served)


def read_and_write(obj, prop, want, written, served):
    for i in (0, 1):
        as2.Web.requests = []
        got = getattr(obj, prop)
        err = check_link(got, want, served, 0 if i else 1)
        if err:
            return err
        follow = isinstance(want, tuple) and want[0] == 'follow'
        if not follow and want != ('keep', 'joe@example.org') and \
                i == 0 and as2.Web.requests:
            return f'requests for {as2.Web.requests}'
        if follow and want[1].startswith('http') and i == 0:
            if {u for u, _ in as2.Web.requests} != {want[1]}:
                if served.get(want[1]) not in CONTENT:
                    return f'requests {as2.Web.requests}'
            accept = {k.lower(): v for k, v in
                      as2.Web.requests[0][1].items()}.get('accept', '')
            if 'application/activity+json' not in accept:
                return f'requested with Accept {accept!r}'
        as2.Web.requests = []
        data = json.loads(obj.json())
        if as2.Web.requests:
            return f'writing makes requests: {as2.Web.requests}'
        if isinstance(want, (tuple, list)) and written is not None or \
                want is None:
            if data.get(prop) != written:
                return f'{prop} is written as {data.get(prop)}'
    return None


def link_case(case):
    t, prop, kind, served = case
    as2.Web.reset({U + 'a': PAGES[served], U + 'b': PAGES['note']})
    obj = getattr(engine(), t)(id=U + 'me')
    value, want, written = linking(kind, U + 'a')
    setattr(obj, prop, value)
    return read_and_write(obj, prop, want, written,
                          {U + 'a': served, U + 'b': 'note'})


def c25(ctx):
    """Every history of assigning links (or other values) and pages appearing,
    changing and failing, read and written at every step; every linking
    property of every type with every kind of value and of answer."""
    t = ctx.thorough
    cfgs = [('Note', 'inReplyTo'), ('Collection', 'first'), ('Create', 'url'),
            ('OrderedCollectionPage', 'orderedItems')]

    def job(c, cfg):
        explore(c, Links(), 4 if t else 3, suffix=1 if t else 0,
                configs=[cfg])
    parallel(ctx, [(job, cfg) for cfg in cfgs])
    seen, space = set(), []
    for n in as2.PARENTS:
        for p in as2.properties_of(n):
            if p not in as2.LINKED or (p in seen and not t):
                continue
            seen.add(p)
            space += [(n, p, k, s) for k in KINDS if accepts(p, k)
                      for s in (PAGES if k in ('url', 'link', 'foreign link',
                                               'raw link')
                                else ('note', 'html'))
                      if t or k in ('url', 'foreign link') or
                      s in ('note', 'page', 'html')]
    split(ctx, 'kinds of links', space, link_case)


# ------------------------------------------------------------------------- C26
def candidates():
    """name -> value; made anew each time."""
    e, link = engine(), {'href': U + 'l'}
    obj = {n: getattr(e, n)(id=U + n) for n in (
        'Object', 'Note', 'Person', 'Create', 'Collection',
        'OrderedCollection', 'CollectionPage', 'OrderedCollectionPage',
        'Tombstone')}
    obj |= {'link': e.Link(href=U + 'l'), 'mention': e.Mention(href=U + 'l')}
    plain = {'none': None, 'word': 'word', 'empty': '', 'url': U + 'u',
             'email': 'joe@example.org', 'acct': 'acct:joe@example.org',
             'zero': 0, 'one': 1, 'minus': -1, 'big': 10 ** 20, 'half': 0.5,
             'minus half': -0.5, 'true': True, 'false': False,
             'date text': '2014-12-31T23:00:00-08:00',
             'bad date text': '2014-12-31', 'no such date':
             '2014-02-31T23:00:00Z', 'datetime': datetime(
                 2020, 1, 2, tzinfo=timezone.utc),
             'delta': timedelta(days=1), 'duration text': 'PT5S',
             'href dict': link, 'link dict': {**link, 'name': 'L',
                                              'rel': 'me', 'height': 3},
             'mailto': 'mailto:joe@example.org', 'dict': {'a': 'b'}, 'bytes': b'word',
             'thing': object(), 'class': models.Note, 'complex': 1j,
             'function': len}
    lists = {'empty list': [], 'list of urls': [U + 'u', U + 'v'],
             'list of objects': [obj['Note'], obj['Person']],
             'list with a number': [obj['Note'], 5],
             'list with a word': [U + 'u', 'word'],
             'list of words': ['a', 'b'],
             'list of words and number': ['a', 1],
             'list of numbers': [1, 2],
             'tuple of objects': (obj['Note'],),
             'list with bytes': [U + 'u', b'x'],
             'list of links': [obj['link'], obj['mention']],
             'list of a collection': [obj['Collection']],
             'list of dicts of links': [
                 U + 'u', dict(link), {'href': U + 'm', 'name': 'M',
                                       'hreflang': 'en'}, obj['Note']]}
    return {**obj, **plain, **lists}


OBJECTS = {'Object', 'Note', 'Person', 'Create', 'Collection', 'Tombstone',
           'OrderedCollection', 'CollectionPage', 'OrderedCollectionPage'}
LINKS = {'link', 'mention', 'url', 'email', 'acct', 'href dict', 'link dict'}
OBJECT_LISTS = {'empty list', 'list of urls', 'list of objects',
                'tuple of objects', 'list of links', 'list of a collection',
                'list of dicts of links'}
COLLECTIONS = {'Collection', 'OrderedCollection', 'CollectionPage',
               'OrderedCollectionPage'}
PAGE_TYPES = {'CollectionPage', 'OrderedCollectionPage'}
TEXTS = {'word', 'empty', 'url', 'email', 'acct', 'date text',
         'bad date text', 'no such date', 'duration text', 'mailto'}
NUMBERS = {'zero', 'one', 'minus', 'big', 'half', 'minus half'}
# kind of property -> (values in its range, values nothing is said about)
ACCEPTED = {
    'reference': (OBJECTS | LINKS | OBJECT_LISTS, set()),
    'page': (PAGE_TYPES | LINKS, set()),
    'collection': (COLLECTIONS | LINKS, set()),
    'replies': (COLLECTIONS, LINKS),
    'url': (LINKS | TEXTS | {'empty list', 'list of urls', 'list of links',
                             'list with a word', 'list of words'}, set()),
    'closed': (OBJECTS | LINKS | OBJECT_LISTS |
               {'true', 'false', 'date text', 'datetime'}, set()),
    'text': (TEXTS, set()),
    'number': (NUMBERS, {'true', 'false'}),
    'positive number': ({'zero', 'one', 'big', 'half'}, {'true', 'false'}),
    'count': ({'zero', 'one', 'big'}, {'true', 'false'}),
    'time': ({'date text', 'datetime'}, set()),
    'duration': ({'delta'} | {'duration text'},
                 TEXTS - {'duration text'}),
    'object or text': (OBJECTS | {'word'},
                       TEXTS | LINKS | {'dict', 'href dict'} | OBJECT_LISTS |
                       {'list of words', 'list with a word'}),
    'object': ({'Object', 'Note', 'Person', 'Create'},
               OBJECTS | LINKS | {'dict'}),
}
PREVIOUS = {'reference': 'Note', 'page': 'CollectionPage',
            'collection': 'Collection', 'replies': 'Collection',
            'url': 'url', 'closed': 'date text', 'text': 'word',
            'number': 'half', 'positive number': 'half', 'count': 'one',
            'time': 'date text', 'duration': 'delta',
            'object or text': 'word', 'object': 'Person'}


def in_range(prop, name):
    """True, False, or None if nothing is said about it"""
    kind, functional = as2.RANGES[prop]
    yes, open_ = ACCEPTED[kind]
    if name == 'none':
        return True
    if kind == 'text' and not functional and name in (
            'list of words', 'list of urls', 'list with a word',
            'empty list'):
        return True
    if prop == 'name' and name in ('dict', 'href dict', 'link dict'):
        return True if name == 'dict' else None
    if prop == 'tag' and name == 'dict':
        return True
    if functional and ('list' in name or 'tuple' in name):
        return False
    if name in open_:
        return None
    return name in yes


def shape(value):
    """What can be seen of a value: links by address, others as they are."""
    if isinstance(value, (list, tuple)):
        return [shape(v) for v in value]
    if isinstance(value, models.Link):
        return 'link', value.href, value.name, value.rel, value.height, \
            value.hreflang
    if isinstance(value, datetime):
        return 'time', instant(value.isoformat())
    return value


def meant(prop, value):
    """What reading has to give for an accepted value."""
    kind = as2.RANGES[prop][0]
    if isinstance(value, (list, tuple)):
        return [meant(prop, v) for v in value]
    if kind in ('time', 'closed') and isinstance(value, str) and \
            instant(value):
        return 'time', instant(value)
    if kind in ('reference', 'page', 'collection', 'url', 'closed'):
        if isinstance(value, dict) and 'href' in value:
            return 'link', value['href'], *(value.get(p) for p in (
                'name', 'rel', 'height', 'hreflang'))
        if isinstance(value, str) and ('://' in value or '@' in value) and \
                not value.startswith('mailto:'):
            return 'link', value, None, None, None, None
    return shape(value)


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(equal, a, b))
    return a is b or type(a) is type(b) and a == b


def range_case(case):
    t, prop, previous, name, how = case
    as2.Web.reset()
    cls = getattr(engine(), t)
    value, ok = candidates()[name], in_range(prop, name)
    if ok is None:
        return None
    if how == 'constructor':
        kind, obj = outcome(lambda: cls(**{'id': U + 'me', prop: value}))
        before = None
    else:
        obj = cls(id=U + 'me')
        before = candidates()[previous] if previous else None
        if previous:
            setattr(obj, prop, before)
        default = getattr(obj, prop)
        others = {p: shape(getattr(obj, p)) for p in as2.properties_of(t)
                  if p != prop}
        kind, err = outcome(setattr, obj, prop, value)
        obj = obj if kind == 'ok' else err
        if kind != 'ok':
            pass
        kept = (default, others)
    if ok and kind != 'ok':
        return f'{name}: {show((kind, obj))}'
    if not ok:
        if kind == 'ok' or not isinstance(obj, ValueError):
            got = show((kind, obj)) if kind != 'ok' else 'is accepted'
            return f'{name} {got}'
        return None
    want = meant(prop, value)
    if prop == 'totalItems' and value is None and how == 'constructor':
        want = 0
    if prop == 'startIndex' and value is None and how == 'constructor':
        want = 0
    got = shape(getattr(obj, prop))
    if not equal(got, want):
        return f'{name} is read as {got!r}, expected {want!r}'
    if how != 'constructor':
        for p, v in kept[1].items():
            if not equal(shape(getattr(obj, p)), v):
                return f'{name}: {p} changed to {getattr(obj, p)!r}'
    return None


def refusal_case(case):
    """A refused value leaves the object as it was."""
    t, prop, previous, name = case
    as2.Web.reset()
    if in_range(prop, name) is not False:
        return None
    obj = getattr(engine(), t)(id=U + 'me')
    if previous:
        setattr(obj, prop, candidates()[previous])
    before = {p: shape(getattr(obj, p)) for p in as2.properties_of(t)}
    text = obj.json()
    kind, err = outcome(setattr, obj, prop, candidates()[name])
    if kind == 'ok' or not isinstance(err, ValueError):
        return f'{name}: {show((kind, err))}'
    for p, v in before.items():
        if not equal(shape(getattr(obj, p)), v):
            return f'{name} refused, but {p} became {getattr(obj, p)!r}'
    if obj.json() != text:
        return f'{name} refused, but written as {obj.json()}'
    setattr(obj, prop, None)
    if getattr(obj, prop) is not None:
        return f'None is read as {getattr(obj, prop)!r}'
    return None


def sequence_case(case):
    """Several assignments one after the other: the last accepted one counts."""
    t, prop, names = case
    as2.Web.reset()
    values = candidates()
    obj = getattr(engine(), t)(id=U + 'me')
    want = shape(getattr(obj, prop))
    for n in names:
        ok = in_range(prop, n)
        if ok is None:
            return None
        kind, err = outcome(setattr, obj, prop, values[n])
        if (kind == 'ok') != ok:
            return f'{n}: {show((kind, err))}'
        if ok:
            want = meant(prop, values[n])
        got = shape(getattr(obj, prop))
        if not equal(got, want):
            return f'after {n} it is {got!r}, expected {want!r}'
    return None


def loading_case(case):
    """Data with a value outside the range is refused as a whole."""
    t, prop, name, nested = case
    value, ok = candidates()[name], in_range(prop, name)
    if ok is not False:
        return None
    inner = doc(t, **{prop: value})
    data = inner if not nested else doc('Note', to=[U + 'x', inner])
    kind, got = outcome(engine().from_json, data)
    if kind == 'ok' or not isinstance(got, ValueError):
        return f'{name}: {show((kind, got))}'
    return None


def c26(ctx):
    """Every property of every type, every value of the domain, with and
    without a previous value, by assignment, construction and loading."""
    t = ctx.thorough
    names = list(candidates())
    every = [(n, p) for n in as2.PARENTS for p in as2.properties_of(n)
             if p != 'type']
    seen, once = set(), []
    for n, p in sorted(every, key=lambda x: (len(as2.ancestors(x[0])), x[0])):
        if p not in seen:
            seen.add(p)
            once.append((n, p))
    pairs = every if t else once
    prev = {p: PREVIOUS[as2.RANGES[p][0]] for _, p in every}
    split(ctx, 'assignments', [
        (n, p, pr, v, 'assign') for n, p in pairs for v in names
        for pr in (None, prev[p])] +
        [(n, p, None, v, 'constructor') for n, p in pairs for v in names
         if p != 'id'], range_case)
    split(ctx, 'refusals', [(n, p, pr, v) for n, p in pairs for v in names
                            for pr in (None, prev[p])], refusal_case)
    split(ctx, 'sequences', [
        (n, p, s) for n, p in once for s in product(
            names if t else names[::3], names)] + ([
                (n, p, s) for n, p in once if p in (
                    'to', 'name', 'first', 'published', 'totalItems', 'url',
                    'closed', 'radius') for s in product(
                        names[::2], repeat=3)] if t else []), sequence_case)
    json_names = [n for n in names if n in (
        'word', 'zero', 'minus', 'half', 'minus half', 'true', 'false',
        'bad date text', 'no such date', 'list with a number',
        'list of words', 'list of words and number', 'list of numbers',
        'list of urls', 'empty list') ]
    split(ctx, 'loading', [
        (n, p, v, k) for n, p in pairs for v in json_names
        if v != 'list with a number' and p != 'id' for k in (False, True)],
        loading_case)


CHECKS = {'C21': c21, 'C22': c22, 'C25': c25, 'C26': c26}
DRIVERS = {'registrations': Loads, 'links': Links}
CASES = {n: document_case for n in (
    'one property', 'two properties', 'complete documents', 'embedded',
    'nested', 'specification examples', 'equal members')}
CASES['given data'] = given_case
CASES |= {'types': type_case, 'engines': isolation_case,
          'kinds of links': link_case, 'assignments': range_case,
          'refusals': refusal_case, 'sequences': sequence_case,
          'loading': loading_case}
