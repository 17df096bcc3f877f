"""Texts and addresses: C27 (times and durations), C28 (addresses and the
loading of JSON-LD documents)."""
import calendar
import itertools
import re
from datetime import datetime, timedelta, timezone
from itertools import product
from json import dumps, loads

from mc import as2
from mc.core import Driver, cases, explore, outcome, parallel, show

as2.install()

from activitystreams import create_engine  # noqa: E402
import jsonld  # noqa: E402
from jsonld import tools  # noqa: E402
from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader  # noqa: E402
from jsonld.engine import utils  # noqa: E402
from pyld.jsonld import JsonLdError  # noqa: E402

_engine = []


def engine():
    if not _engine:
        _engine.append(create_engine())
    return _engine[0]


# ------------------------------------------------------------------------- C27
GRAMMAR = re.compile(
    r'([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2})(?::([0-9]{2}))?'
    r'(?:\.([0-9]{1,6}))?(?:Z|Z?([+-])([0-9]{2}):([0-9]{2}))\Z')
UTC = timezone.utc


def moment(text):
    """The moment a text means, None if it means none, 'open' if nothing is
    said about it (leap seconds, moments outside the years 1000 to 9999)."""
    m = GRAMMAR.match(text)
    if not m:
        return None
    y, mo, d, h, mi = (int(x) for x in m.groups()[:5])
    s = int(m[6] or 0)
    if not 1 <= mo <= 12 or not 1 <= d <= 31 or h > 23 or mi > 59 or s > 60:
        return None
    if m[8] and (int(m[9]) > 23 or int(m[10]) > 59):
        return None
    if s == 60 or y < 1000:
        return 'open'
    if d > calendar.monthrange(y, mo)[1]:
        return None
    t = datetime(y, mo, d, h, mi, s, int((m[7] or '0').ljust(6, '0')), UTC)
    offset = timedelta(hours=int(m[9] or 0), minutes=int(m[10] or 0))
    try:
        t = t - offset if m[8] == '+' else t + offset
    except OverflowError:
        return 'open'
    return t if t.year >= 1000 else 'open'


def as_utc(t):
    return t.replace(tzinfo=UTC) if t.tzinfo is None else t.astimezone(UTC)


TIMES = (('Note', 'published'), ('Event', 'startTime'), ('Event', 'endTime'),
         ('Note', 'updated'), ('Tombstone', 'deleted'),
         ('Question', 'closed'))


def text_case(case):
    """A text assigned to a time property, read, written, loaded and written
    again."""
    (t, prop), text, load = case
    want = moment(text)
    if want == 'open':
        return None
    if load:
        kind, obj = outcome(engine().from_json, {
            '@context': as2.AS2, 'type': t, prop: text})
        err = obj
    else:
        obj = getattr(engine(), t)(id='http://x/')
        kind, err = outcome(setattr, obj, prop, text)
    if want is None:
        if kind == 'ok' or not isinstance(err, ValueError):
            return f'{text!r} {show((kind, err))}'
        if not load and getattr(obj, prop) is not None:
            return f'{text!r} was refused, but is {getattr(obj, prop)!r}'
        return None
    if kind != 'ok':
        return f'{text!r} {show((kind, err))}'
    return time_error(obj, t, prop, want)


def time_error(obj, t, prop, want):
    got = getattr(obj, prop)
    if not isinstance(got, datetime) or as_utc(got) != want:
        return f'it is read as {got!r}, expected {want}'
    text = loads(obj.json())[prop]
    if not isinstance(text, str) or moment(text) != want:
        return f'it is written as {text!r}, expected {want}'
    again = engine().from_json(obj.json())
    if as_utc(getattr(again, prop)) != want:
        return f'loaded again, it is {getattr(again, prop)!r}'
    if loads(again.json())[prop] != text:
        return f'written again, it is {again.json()}'
    return None


def datetime_case(case):
    """A datetime assigned to a time property."""
    (t, prop), parts, offset = case
    tz = None if offset is None else timezone(timedelta(minutes=offset))
    value = datetime(*parts, tzinfo=tz)
    obj = getattr(engine(), t)(id='http://x/', **{prop: value})
    if getattr(obj, prop) != value:
        return f'{value} is read as {getattr(obj, prop)!r}'
    return time_error(obj, t, prop, as_utc(value))


def function_case(text):
    """The tools themselves."""
    want = moment(text)
    if want == 'open':
        return None
    kind, err = outcome(lambda: (
        tools.is_activity_datetime(text, prop='x'),
        tools.parse_activitystream_datetime(text))[1])
    if want is None:
        if kind == 'ok' or not isinstance(err, ValueError):
            return f'{text!r} {show((kind, err))}'
        return None
    if kind != 'ok' or as_utc(err) != want:
        return f'{text!r} {show((kind, err))}, expected {want}'
    if moment(tools.datetime_str(err)) != want:
        return f'{text!r} is written as {tools.datetime_str(err)}'
    return None


DURATION = re.compile(
    r'(-?)P(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)D)?'
    r'(?:T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)(?:\.([0-9]+))?S)?)?\Z')


def length(text):
    """The time a duration text means, a year being 365 and a month 30 days;
    None if it is not an xsd:duration."""
    m = DURATION.match(text)
    if not m or not any(m.groups()[1:]) or text.endswith('T'):
        return None
    y, mo, d, h, mi, s = (int(x or 0) for x in m.groups()[1:7])
    micro = int((m[8] or '0').ljust(6, '0')[:6])
    value = timedelta(days=365 * y + 30 * mo + d, hours=h, minutes=mi,
                      seconds=s, microseconds=micro)
    return -value if m[1] else value


def duration_case(case):
    days, seconds, micro, whole = case
    value = timedelta(days, seconds, micro)
    text = tools.timedelta_str(value)
    if length(text) != value:
        return f'{value!r} is written as {text!r}'
    if not whole:
        return None
    obj = engine().Video(id='http://x/', duration=value)
    if obj.duration != value:
        return f'{value!r} is read as {obj.duration!r}'
    written = loads(obj.json()).get('duration')
    if not isinstance(written, str) or length(written) != value:
        return f'{value!r} is written as {written!r}'
    again = engine().from_json(obj.json())
    if loads(again.json()).get('duration') != written:
        return f'written again, it is {again.json()}'
    return None


def edits(text, chars):
    """Every text that differs in one character."""
    yield text
    for i in range(len(text) + 1):
        yield text[:i] + text[i + 1:]
        for c in chars:
            yield text[:i] + c + text[i:]
            if i < len(text):
                yield text[:i] + c + text[i + 1:]


DATES = ['1000-01-02', '1969-12-31', '1970-01-01', '1999-12-31', '2000-02-29',
         '2023-02-28', '2024-02-29', '2024-03-01', '2038-01-19', '9999-12-30',
         '2014-12-31', '2015-01-01'] + \
        [f'2021-{m:02}-{d}' for m in range(1, 13) for d in ('01', '30')
         if (m, d) != (2, '30')]
CLOCKS = ['00:00', '23:59', '12:30', '09:05']
SECONDS = ['', ':00', ':59', ':07']
FRACTIONS = ['', '.0', '.5', '.05', '.25', '.123456', '.000001', '.999999',
             '.100', '.0001', '.12345']
ZONES = ['Z', '+00:00', '-00:00', '-08:00', '+05:30', '+23:59', '-23:59',
         'Z+02:00', 'Z-00:30', '+14:00', '-00:01']
BAD = ['', 'x', '2014-12-31', '23:00:00Z', '2014-12-31T23:00:00',
       '2014-12-31 23:00:00Z', '2014-12-31t23:00:00z', '2014-13-01T00:00:00Z',
       '2014-00-01T00:00:00Z', '2014-02-29T00:00:00Z', '2014-04-31T00:00:00Z',
       '1900-02-29T00:00:00Z', '2014-12-32T00:00:00Z', '2014-12-00T00:00:00Z',
       '2014-12-31T24:00:00Z', '2014-12-31T23:60:00Z', '2014-12-31T23:00:61Z',
       '2014-12-31T23:00:00+24:00', '2014-12-31T23:00:00+00:60',
       '2014-12-31T23:00:00+0000', '2014-12-31T23:00:00GMT',
       '14-12-31T23:00:00Z', '02014-12-31T23:00:00Z', '2014-1-1T23:00:00Z',
       '2014-12-31T23Z', '2014-12-31T23:00:00.Z', '2014-12-31T23:00:00,5Z',
       '2014-12-31T23:00:00Z ', ' 2014-12-31T23:00:00Z',
       '2014-12-31T23:00:00Z\n', '2014-12-31T23:00:00ZZ', 'now', 'true',
       '20141231T230000Z', '2014-365T23:00:00Z', '2014-W01-1T23:00:00Z']


def c27(ctx):
    """Times in every combination of dates, clock times, fractions and zones,
    as texts and as values, for every time property; all texts one character
    away from valid ones; durations over a grid of days, seconds and fractions.
    """
    t = ctx.thorough
    texts = [f'{d}T{c}{s}{f}{z}' for d in DATES for c in CLOCKS
             for s in SECONDS for f in FRACTIONS for z in ZONES]
    some = [x for x in texts if t or x.startswith(('2024-02-29', '2014-12'))]
    near = ['2014-12-31T23:00:00Z', '2024-02-29T23:59:59.25+05:30',
            '2014-11-30T09:05Z-08:00']
    chars = '0123456789.:-+TZtz \n/' if t else '012359.:-+TZz \n'
    edited = sorted({e for n in near for e in edits(n, chars)} | set(BAD))
    spaces = [
        ('functions', texts + edited, function_case),
        ('texts', [(TIMES[i % 6] if not t else tp, x, load)
                   for i, x in enumerate(some)
                   for tp in (TIMES if t and x[:4] == '2024' else [TIMES[
                       i % 6]]) for load in (False,)] +
         [(TIMES[i % 6], x, True) for i, x in enumerate(some[::7])] +
         [(tp, x, load) for tp in TIMES for x in BAD
          if tp[1] != 'closed' or x not in ('',)
          for load in (False, True)], text_case),
        ('edited texts', [(TIMES[i % 5], x, False)
                          for i, x in enumerate(edited)], text_case)]
    parts = [(y, mo, d, h, mi, s, us) for y, mo, d in (
        (1000, 1, 2), (1970, 1, 1), (2000, 2, 29), (2014, 12, 31),
        (9999, 12, 30)) for h, mi, s in ((0, 0, 0), (23, 59, 59), (9, 5, 7))
        for us in (0, 1, 500000, 999999, 120)]
    offsets = [None, 0, 60, -480, 330, 1439, -1439, 1]
    spaces.append(('values', [(tp, p, o) for tp in TIMES for p in parts
                              for o in offsets], datetime_case))
    days = range(-4000, 4001) if t else range(-800, 801)
    marks = (0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 43200, 7325)
    micro = (0, 1, 10, 500000, 999999, 120000)
    spaces.append(('durations', [
        (d, s, u, False) for d in days for s in marks for u in micro] +
        [(d, s, 0, False) for d in (0, -1, 1, 30, 365)
         for s in range(0, 86400, 1 if t else 7)] +
        [(d, s, u, True) for d in (-366, -31, -1, 0, 1, 29, 30, 31, 364, 365,
                                   366, 395, 730, 100000)
         for s in marks for u in micro], duration_case))

    def job(c, name, space, fn, i):
        cases(c, name, space[i::8], fn)
    parallel(ctx, [(job, name, space, fn, i) for name, space, fn in spaces
                   for i in range(8)])


# ------------------------------------------------------------------------- C28
ALLOWED = re.compile(r'[A-Za-z0-9_.:-]+\Z')


def acceptable(scheme, host, secure):
    """Whether documents may be fetched from there."""
    return scheme in (('https',) if secure else ('http', 'https')) and \
        ALLOWED.match(host) is not None


def url_case(case):
    scheme, host, rest = case
    url = f'{scheme}://{host}{rest}' if scheme is not None \
        else f'{host}{rest}'
    for secure in (False, True):
        want = scheme is not None and acceptable(scheme, host, secure)
        for fn in (tools.validate_url, utils.validate_url):
            kind, got = outcome(fn, url, secure)
            if kind == 'exc':
                if want or not isinstance(got, ValueError):
                    return f'{url!r}, secure={secure}: {show((kind, got))}'
            elif got is not want:
                return (f'{url!r}, secure={secure}: {got} by {fn.__module__}, '
                        f'expected {want}')
    return None


def account_case(text):
    from validate_email import validate_email
    plain = text[5:] if text.startswith('acct:') else text
    want = bool(validate_email(plain))
    for fn in (tools.validate_acct_or_email, utils.validate_acct_or_email):
        if bool(fn(text)) != want:
            return f'{text!r}: {fn(text)}, expected {want}'
    return None


def getters():
    from jsonld.tools import url as other
    return {jsonld.jsonld_get, getattr(other, 'jsonld_get',
                                       jsonld.jsonld_get)}


def get_case(case):
    """jsonld_get asks for what it is told to, once, and for linked data unless
    told otherwise; it gives the document or the response."""
    headers, json, status, body = case
    url = 'https://a.org/doc'
    as2.Web.reset({url: (status, {'Content-Type': 'application/json'}, body)})
    for fn in getters():
        as2.Web.requests = []
        given = None if headers is None else dict(headers)
        try:
            got = fn(url, json=json) if given is None and not json else \
                fn(url, given, json)
        except ValueError:
            got = ValueError
        if len(as2.Web.requests) != 1 or as2.Web.requests[0][0] != url:
            return f'{case}: requests {as2.Web.requests}'
        sent = as2.Web.requests[0][1]
        sent = {k.lower(): v for k, v in sent.items()}
        want = {'accept': sent.get('accept')}
        want.update((k.lower(), v) for k, v in headers or ())
        if any(sent.get(k) != v for k, v in want.items()) or \
                'Accept' not in dict(headers or ()) and \
                'application/ld+json' not in str(sent.get('accept')) or \
                given is not None and given != dict(headers):
            return f'{case}: sent {sent}'
        if json:
            try:
                ok = got == loads(body)
            except ValueError:
                ok = got is ValueError
        else:
            ok = (got.status_code, got.text) == (status, body)
        if not ok:
            return f'{case}: gave {got!r}'
    for page in (None, OSError('harness')):
        as2.Web.reset({url: page} if page else {})
        for fn in getters():
            try:
                return f'{case}: gave {fn(url, json=json)!r} without a document'
            except OSError:
                pass
    return None


_unique = itertools.count()


class Loading(Driver):
    """Loaders that load documents which come, change and go away."""
    name = 'document loaders'
    HOSTS = ('https://a.org/{}', 'http://a.org/{}', 'https://b.org:8080/x{}',
             'https://b.org:8080/X{}', 'https://a.org/{}/', 'https://a.org/{}#',
             'https://a.org/{}#f', 'https://a.org/{}?q#f', 'ftp://a.org/{}',
             'https:///{}', 'https://a b/{}', 'a.org/{}')
    configs = ('all',)

    def build(self, cfg):
        tail = f'{next(_unique)}'           # documents are kept for ever
        as2.Web.reset()
        return {'tail': tail, 'loaders': {
            'plain': RequestsJsonLoader(),
            'plain insecure': RequestsJsonLoader(secure=False),
            'cached': CachedRequestsJsonLoader(),
            'cached insecure': CachedRequestsJsonLoader(secure=False),
            'cached too': CachedRequestsJsonLoader(headers={'Accept': 'z'})}}

    def initial(self, cfg):
        return (), ()               # (url, version) served; (url, version) kept

    def ops(self, cfg, model):
        served, kept = map(dict, model)
        for u in self.HOSTS[:8]:
            for v in ('1', '2', 'broken', None):
                if served.get(u) != v:
                    yield 'serve', u, v
        for u in self.HOSTS:
            for n in ('plain', 'plain insecure', 'cached', 'cached insecure',
                      'cached too'):
                # one and the same cache is used by secure loaders, too
                if u.startswith('http:') and n in ('cached', 'cached too') \
                        and u in kept:
                    continue
                yield 'load', n, u

    def apply(self, cfg, impl, op):
        if op[0] == 'serve':
            url = op[1].format(impl['tail'])
            if op[2] is None:
                as2.Web.pages.pop(url, None)
            else:
                as2.Web.pages[url] = (200, {'content-type':
                                            'application/ld+json'},
                                      dumps({'@context': {'v': op[2]}})
                                      if op[2] != 'broken' else '<html>')
            return None
        as2.Web.requests = []
        loader = impl['loaders'][op[1]]
        self.address = op[2].format(impl['tail'])
        return loader(self.address, {})

    def step(self, cfg, model, op, out):
        served, kept = map(dict, model)
        if op[0] == 'serve':
            if op[2] is None:
                served.pop(op[1], None)
            else:
                served[op[1]] = op[2]
            return (tuple(sorted(served.items())), model[1]), \
                None if out[0] == 'ok' else show(out)
        _, loader, url = op
        cached = loader.startswith('cached')
        scheme, _, host = url.partition('://')
        fine = acceptable(scheme, host.split('/')[0],
                          'insecure' not in loader)
        asked = [u for u, _ in as2.Web.requests]
        if cached and url in kept:
            version, requests = kept[url], 0
        elif not fine:
            version, requests = None, 0
        else:
            version, requests = served.get(url), 1
            if version == 'broken':
                version = None
        if asked != [self.address] * requests:
            return model, f'requests {asked}, expected {requests}'
        if requests:
            accept = {k.lower(): v for k, v in as2.Web.requests[0][1].items()
                      }.get('accept', '')
            if ('application/ld+json' not in accept) != (
                    loader == 'cached too'):
                return model, f'requested with Accept {accept!r}'
        if version is None:
            if out[0] == 'ok' or not isinstance(out[1], JsonLdError):
                return model, show(out)
            return model, None
        if out[0] != 'ok':
            return model, show(out)
        doc = out[1]
        if doc['document'] != {'@context': {'v': version}} or \
                doc['documentUrl'] != self.address or \
                doc['contextUrl'] is not None or \
                doc['contentType'] != 'application/ld+json':
            return model, f'{doc}, expected version {version}'
        if cached:
            kept[url] = version
        return (model[0], tuple(sorted(kept.items()))), None


CTX = 'http://www.w3.org/ns/json-ld#context'
LINKS = {
    'none': None,
    'context': f'<http://c.org/c>; rel="{CTX}"; type="application/ld+json"',
    'two contexts': f'<http://c.org/1>; rel="{CTX}", '
                    f'<http://c.org/2>; rel="{CTX}"',
    'alternate': '<alt.json>; rel="alternate"; type="application/ld+json"',
    'alternate of another type': '<alt.html>; rel="alternate"; '
                                 'type="text/html"',
    'both': f'<http://c.org/c>; rel="{CTX}", '
            '</alt>; rel="alternate"; type="application/ld+json"',
    'stylesheet': '<s.css>; rel="stylesheet"',
}
TYPES = ['application/ld+json', 'application/json', 'application/activity+json',
         'text/html', None]


def header_case(case):
    """What is made of the headers of a response, cached or not."""
    ctype, link, cached, secure, moved = case
    url = f'https://h.org/dir/{next(_unique)}'
    headers = {}
    if ctype:
        headers['content-type'] = ctype
    if LINKS[link]:
        headers['link'] = LINKS[link]
    final = 'https://other.org/dir/x' if moved else url
    as2.Web.reset({url: (200, headers, '{"a": 1}', final)})
    cls = CachedRequestsJsonLoader if cached else RequestsJsonLoader
    for i in (0, 1):
        kind, doc = outcome(cls(secure=secure), url)
        if link == 'two contexts' and ctype != 'application/ld+json':
            if kind == 'ok' or not isinstance(doc, JsonLdError):
                return show((kind, doc))
            continue
        want = {'contentType': ctype or 'application/octet-stream',
                'contextUrl': None, 'documentUrl': final, 'document': {'a': 1}}
        if link in ('context', 'both') and ctype != 'application/ld+json':
            want['contextUrl'] = 'http://c.org/c'
        if link in ('alternate', 'both') and ctype in ('text/html', None):
            want['contentType'] = 'application/ld+json'
            want['documentUrl'] = 'https://h.org/alt' if link == 'both' \
                else 'https://h.org/dir/alt.json'
        if kind != 'ok' or doc != want:
            return f'{show((kind, doc))}, expected {want}'
    return None


def loader_case(case):
    """Loaders refuse what is no acceptable address without a request."""
    scheme, host, rest = case
    url = f'{scheme}://{host}{rest}' if scheme is not None else host + rest
    for secure, cls in product((True, False),
                               (RequestsJsonLoader, CachedRequestsJsonLoader)):
        want = scheme is not None and acceptable(scheme, host, secure)
        as2.Web.reset()
        kind, got = outcome(cls(secure=secure), url)
        if kind == 'ok' or not isinstance(got, JsonLdError):
            return f'{url!r}: {show((kind, got))}'
        if bool(as2.Web.requests) != want:
            return (f'{url!r}, secure={secure}: requests '
                    f'{as2.Web.requests}, expected {"one" if want else "none"}')
    return None


def urls(n):
    alphabet = 'aZ9.-_:@%é ![]\\'
    schemes = ('http', 'https', 'ftp', 'httpx', 'htt', '', 's', None)
    hosts = [''.join(h) for k in range(n + 1)
             for h in product(alphabet, repeat=k)]
    hosts += ['example.org', 'exa mple.org', 'user@example.org', 'a' * 60,
              'example.org:80', '[::1]', '%61.org', 'xn--a.org', 'a..b']
    for h in hosts:
        for s in schemes if len(h) < 3 or len(h) > 4 else schemes[:3]:
            for r in ('', '/', '/p?q=é#f', '?x', '#f'):
                if s is None and h + r == '':
                    continue
                yield s, h, r


def c28(ctx):
    """Every host of up to two (three) characters of a representative alphabet
    with every kind of scheme; every history of five loaders loading documents
    that come, change and go; every combination of response headers."""
    t = ctx.thorough
    space = list(urls(3 if t else 2))
    accounts = [p + l + at + d for p in ('', 'acct:', 'acct', 'ACCT:',
                                         'acct:acct:', 'mailto:',
                                         'mailto:acct:', 'acct:mailto:')
                for l in ('', 'a', 'a.b', '.a', 'a b', 'acct', 'é', 'a+b')
                for at in ('', '@', '@@')
                for d in ('', 'b', 'b.org', 'b..org', 'b.org.', '-b', 'b c')]

    def job(c, name, sp, fn, i):
        cases(c, name, sp[i::8], fn)

    def history(c):
        explore(c, Loading(), 4 if t else 3, suffix=0)
    small = [x for x in urls(2 if t else 1)]
    headers = [(c, l, k, s, m) for c in TYPES for l in LINKS
               for k in (False, True) for s in (False, True)
               for m in (False, True)
               if not (m and l in ('alternate', 'both'))]
    gets = [(h, j, st, b) for h in (
        None, (), (('Accept', 'text/html'),), (('X-Test', '1'),),
        (('Accept', 'a/b'), ('X-Test', '1'))) for j in (True, False)
        for st in (200, 404) for b in ('{"a": [1, null]}', '[]', '', '{')]
    parallel(ctx, [(history,), (job, 'requests', gets, get_case, 0)] + [
        (job, name, sp, fn, i) for name, sp, fn in (
            ('addresses', space, url_case),
            ('accounts', accounts, account_case),
            ('refused addresses', small, loader_case),
            ('headers', headers, header_case)) for i in range(8)])


CHECKS = {'C27': c27, 'C28': c28}
DRIVERS = {'document loaders': Loading}
CASES = {'functions': function_case, 'texts': text_case,
         'edited texts': text_case, 'values': datetime_case,
         'durations': duration_case, 'addresses': url_case,
         'accounts': account_case, 'refused addresses': loader_case,
         'headers': header_case, 'requests': get_case}
