"""The Activity Streams 2.0 JSON-LD context (offline copy) and the glue that
puts the repository's document loader and HTTP GET behind a stub the harness
owns: nothing in a check ever reaches a network."""
import sys

AS2 = 'https://www.w3.org/ns/activitystreams'

_TYPES = """Accept Activity IntransitiveActivity Add Announce Application Arrive
Article Audio Block Collection CollectionPage Relationship Create Delete Dislike
Document Event Follow Flag Group Ignore Image Invite Join Leave Like Link Mention
Note Object Offer OrderedCollection OrderedCollectionPage Organization Page Person
Place Profile Question Reject Remove Service TentativeAccept TentativeReject
Tombstone Undo Update Video View Listen Read Move Travel""".split()
_IDS = """subject relationship actor attributedTo attachment bcc bto cc context
current first generator icon image inReplyTo items instrument last location next
object oneOf anyOf origin prev preview replies result audience partOf tag target to
url href describes formerType""".split()
_PLAIN = """content name summary rel units mediaType hreflang""".split()
_TYPED = {
    'closed': 'xsd:dateTime', 'accuracy': 'xsd:float', 'altitude': 'xsd:float',
    'duration': 'xsd:duration', 'height': 'xsd:nonNegativeInteger',
    'latitude': 'xsd:float', 'longitude': 'xsd:float',
    'endTime': 'xsd:dateTime', 'published': 'xsd:dateTime',
    'startTime': 'xsd:dateTime', 'radius': 'xsd:float',
    'startIndex': 'xsd:nonNegativeInteger',
    'totalItems': 'xsd:nonNegativeInteger', 'updated': 'xsd:dateTime',
    'width': 'xsd:nonNegativeInteger', 'deleted': 'xsd:dateTime',
}


def context_document():
    ctx = {
        '@vocab': '_:',
        'xsd': 'http://www.w3.org/2001/XMLSchema#',
        'as': 'https://www.w3.org/ns/activitystreams#',
        'ldp': 'http://www.w3.org/ns/ldp#',
        'vcard': 'http://www.w3.org/2006/vcard/ns#',
        'id': '@id', 'type': '@type',
    }
    for t in _TYPES:
        ctx[t] = 'as:' + t
    for p in _IDS:
        ctx[p] = {'@id': 'as:' + p, '@type': '@id'}
    for p in _PLAIN:
        ctx[p] = 'as:' + p
    for p, t in _TYPED.items():
        ctx[p] = {'@id': 'as:' + p, '@type': t}
    ctx['orderedItems'] = {'@id': 'as:items', '@type': '@id',
                           '@container': '@list'}
    ctx['inbox'] = {'@id': 'ldp:inbox', '@type': '@id'}
    ctx['outbox'] = {'@id': 'as:outbox', '@type': '@id'}
    return {'@context': ctx}


EXTRA_CONTEXTS = {}


def loader(url, *args, **kwargs):
    if url in (AS2, AS2 + '#', AS2.replace('https', 'http'),
               AS2.replace('https', 'http') + '#'):
        doc = context_document()
    elif url in EXTRA_CONTEXTS:
        doc = EXTRA_CONTEXTS[url]
    else:
        raise RuntimeError(f'harness: no document for {url}')
    return {'contentType': 'application/ld+json', 'contextUrl': None,
            'documentUrl': url, 'document': doc}


class Web:
    """The only web there is. ``pages`` maps an address to what it serves:
    (status, headers, body), with the address it was redirected to if it was,
    or an exception to raise; ``requests`` lists the (address, headers) asked
    for."""
    pages = {}
    requests = []

    @classmethod
    def reset(cls, pages=None):
        cls.pages = pages or {}
        cls.requests = []


def _send(self, request, **kwargs):
    from requests import ConnectionError, Response
    Web.requests.append((request.url, dict(request.headers)))
    page = Web.pages.get(request.url)
    if page is None:
        raise ConnectionError(f'harness: nothing at {request.url}')
    if isinstance(page, Exception):
        raise page
    response = Response()
    response.status_code, headers, body, *moved = page
    response.headers.update(headers)
    response._content = body if isinstance(body, bytes) else body.encode()
    response.url, response.request = (*moved, request.url)[0], request
    response.encoding = 'utf-8'
    return response


def install():
    """Import the repository's jsonld package with the stub loader in place,
    and every request answered by Web."""
    import requests
    from requests.adapters import HTTPAdapter
    HTTPAdapter.send = _send

    class Request:
        def __init__(self, url, headers):
            self.url, self.headers = url, headers or {}

    def get(url, params=None, headers=None, **kwargs):
        if not url.startswith(('http://', 'https://')):
            raise requests.exceptions.MissingSchema(url)
        return _send(None, Request(url, headers))
    requests.get = requests.api.get = get       # the same, only faster
    import jsonld  # noqa: F401  (sets its own loader on import)
    from pyld.jsonld import set_document_loader
    set_document_loader(loader)


# ----------------------------------------------------------------- vocabulary
# what the Activity Streams 2.0 vocabulary says, independent of the repository
PARENTS = {'Object': (), 'Link': ()}
for _names, _parent in (
        ('Activity Collection Application Group Organization Person Service '
         'Relationship Article Document Note Event Place Profile Tombstone',
         'Object'),
        ('IntransitiveActivity Accept Add Create Delete Follow Ignore Join '
         'Leave Like Offer Reject Remove Undo Update View Listen Read Move '
         'Announce Flag Dislike', 'Activity'),
        ('Arrive Travel Question', 'IntransitiveActivity'),
        ('TentativeAccept', 'Accept'), ('Invite', 'Offer'),
        ('TentativeReject', 'Reject'), ('Block', 'Ignore'),
        ('OrderedCollection CollectionPage', 'Collection'),
        ('Audio Image Video Page', 'Document'), ('Mention', 'Link')):
    for _n in _names.split():
        PARENTS[_n] = (_parent,)
PARENTS['OrderedCollectionPage'] = ('OrderedCollection', 'CollectionPage')


def ancestors(name):
    """A type and everything it is derived from."""
    found = [name]
    for p in PARENTS[name]:
        found += [a for a in ancestors(p) if a not in found]
    return found


def is_a(name, *bases):
    return any(b in ancestors(name) for b in bases)


OWN = {
    'Object': """attachment attributedTo audience content context name endTime
        generator icon image inReplyTo location preview published replies
        startTime summary tag updated url to bto cc bcc mediaType duration id""",
    'Link': 'href rel mediaType name hreflang height width preview id',
    'Activity': 'actor object target result origin instrument',
    'Collection': 'totalItems current first last items',
    'OrderedCollection': 'orderedItems',
    'CollectionPage': 'partOf next prev',
    'OrderedCollectionPage': 'startIndex',
    'Question': 'oneOf anyOf closed',
    'Relationship': 'subject object relationship',
    'Place': 'accuracy altitude latitude longitude radius units',
    'Profile': 'describes', 'Tombstone': 'formerType deleted',
}


def properties_of(name):
    found = []
    for a in ancestors(name):
        for p in OWN.get(a, '').split():
            if p not in found and not (
                    p == 'object' and is_a(name, 'IntransitiveActivity')):
                found.append(p)
    return found


# range of a property: (kind, functional)
RANGES = {}
for _names, _kind, _functional in (
        ("""attachment attributedTo audience context generator icon image
          inReplyTo location preview tag to bto cc bcc actor object target
          result origin instrument items orderedItems oneOf anyOf""",
         'reference', False),
        ('subject', 'reference', True),
        ('current first last next prev', 'page', True),
        ('partOf', 'collection', True), ('replies', 'replies', True),
        ('url', 'url', False), ('closed', 'closed', False),
        ('content name summary rel', 'text', False),
        ('mediaType hreflang units href id', 'text', True),
        ('accuracy altitude latitude longitude', 'number', True),
        ('radius', 'positive number', True),
        ('height width startIndex totalItems', 'count', True),
        ('endTime published startTime updated deleted', 'time', True),
        ('duration', 'duration', True),
        ('relationship', 'object or text', False),
        ('formerType', 'object or text', False),
        ('describes', 'object', True)):
    for _n in _names.split():
        RANGES[_n] = _kind, _functional
LINKED = [p for p, (k, _) in RANGES.items()
          if k in ('reference', 'page', 'collection', 'url')]
