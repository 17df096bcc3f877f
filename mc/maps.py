"""The reference model of every map in the storage layer: a sorted tuple of
(key, value) pairs, and the full set of observations made of a real one."""

MISSING = '<missing>'
LOW, HIGH = '!', '~'


def get(model, key, default=MISSING):
    for k, v in model:
        if k == key:
            return v
    return default


def put(model, key, value):
    return tuple(sorted([(k, v) for k, v in model if k != key]
                        + [(key, value)], key=lambda kv: kv[0]))


def drop(model, key):
    return tuple((k, v) for k, v in model if k != key)


def keys(model):
    return [k for k, _ in model]


def within(model, lo, hi):
    return [(k, v) for k, v in model
            if (lo is None or k >= lo) and (hi is None or k <= hi)]


def same(a, b):
    """Equal and of the same type: True is not 1, () is not []."""
    return type(a) is type(b) and a == b


def same_list(a, b):
    return len(a) == len(b) and all(
        same(x, y) if not isinstance(x, tuple) or not isinstance(y, tuple)
        else len(x) == len(y) and all(map(same, x, y)) for x, y in zip(a, b))


def by_key(items):
    return sorted(items, key=lambda kv: kv[0])


def observe(obj, model, domain, ranges=True):
    """Everything the map interface can tell about its contents."""
    if obj.size != len(model):
        return f'size is {obj.size}, {len(model)} items are stored'
    marker = object()
    for k in domain:
        want = get(model, k)
        if bool(obj.has_key(k)) != (want is not MISSING):
            return f'has_key({k!r}) is {obj.has_key(k)!r}, model: {want!r}'
        got = obj.get(k, marker)
        if want is MISSING:
            if got is not marker:
                return f'get({k!r}, default) gave {got!r} for a missing key'
            if obj.get(k) is not None:
                return f'get({k!r}) gave {obj.get(k)!r} for a missing key'
        elif not same(got, want) or not same(obj.get(k), want):
            return f'get({k!r}) gave {got!r}, stored: {want!r}'
        if obj.get(key=k, default=marker) is not got and \
                obj.get(key=k, default=marker) != got:
            return f'get(key={k!r}) differs from get({k!r})'
    want_keys = keys(model)
    for call, want in (('keys', want_keys),):
        got = list(getattr(obj, call)())
        if sorted(got) != want or len(obj.keys()) != len(want):
            return f'{call}() gave {got!r}, stored: {want!r}'
    for k in domain:
        if (k in obj.keys()) != (k in want_keys):
            return f'{k!r} in keys() is {k in obj.keys()}'
    items = list(obj.items())
    if not same_list(by_key(items), list(model)) or \
            len(obj.items()) != len(model):
        return f'items() gave {items!r}, stored: {model!r}'
    vals = list(obj.values())
    if len(obj.values()) != len(model) or \
            sorted(map(repr, vals)) != sorted(repr(v) for _, v in model):
        return f'values() gave {vals!r}, stored: {model!r}'
    # the views of one moment correspond to each other
    if not same_list(list(zip(obj.keys(), obj.values())), items):
        return 'keys(), values() and items() do not correspond'
    if not ranges:
        return None
    bounds = [None, LOW, *domain, HIGH]
    for lo in bounds:
        for hi in bounds:
            want = within(model, lo, hi)
            got = list(obj.iteritems(lo, hi))
            if not same_list(got, want):
                return f'iteritems({lo!r}, {hi!r}) gave {got!r}, not {want!r}'
            got = list(obj.iterkeys(lo, hi))
            if got != [k for k, _ in want]:
                return f'iterkeys({lo!r}, {hi!r}) gave {got!r}, not {want!r}'
            got = list(obj.itervalues(lo, hi))
            if not same_list(got, [v for _, v in want]):
                return f'itervalues({lo!r}, {hi!r}) gave {got!r}, not {want!r}'
        for call, want in (('minKey', [k for k, _ in within(model, lo, None)]),
                           ('maxKey', [k for k, _ in within(model, None, lo)])):
            for args in ((), (lo,)) if lo is None else ((lo,),):
                try:
                    got = getattr(obj, call)(*args)
                    if not want:
                        return f'{call}{args} gave {got!r}, nothing applies'
                except ValueError as e:
                    if want:
                        return f'{call}{args} raised {e}, applicable: {want!r}'
                    continue
                if got != (min if call == 'minKey' else max)(want):
                    return f'{call}{args} gave {got!r}, not one of {want!r}'
    return None
