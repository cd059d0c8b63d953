"""Reference model of the resolution of a description (boring, order free).

Attribute specification: a plain dictionary, as in a footprint:
``optional, default, alias, values, outcast, remap, type, args, isclass``.

:func:`resolve` returns one of

* ``('ok', values, inputs)``: every attribute has an acceptable value
* ``('reject', {attr: set(reasons)})``
* ``('raise', {exception names})``
* ``('either', ...)``: some attribute must be rejected and an other one raises: whichever
  comes first is not specified.
"""

import re

import footprints


class Unset:
    def __repr__(self):
        return 'UNSET'


UNSET = Unset()

MISSING = 'Missing value'
INVALID = 'Invalid value'
OUTSIDE = 'Not in values'
OUTCAST = 'Outcast value'
RECLASS = 'Could not reclass'
SUBCLASS = 'Not a subclass'

_MARK = re.compile(r'\[(\w+)(?::+([:\w]+))?(?:#(\w+))?(?:%([^\]]+))?\]')

MAXSUB = 400


class _Raise(Exception):
    def __init__(self, *names):
        self.names = set(names)


class _Reject(Exception):
    def __init__(self, reason, late=False):
        self.reason = reason
        self.late = late


def source(name, spec, desc, defaults):
    """(value, given): where does the raw value of an attribute come from."""
    opt = spec.get('optional', False)

    def usable(key):
        return key in desc and not (opt and desc[key] is None)

    if usable(name):
        return desc[name], True
    for al in spec.get('alias', ()):
        if usable(al):
            return desc[al], True
    low = {k.lower(): v for k, v in defaults.items()}
    if name.lower() in low:
        return low[name.lower()], True
    if opt:
        dflt = spec.get('default', None)
        if dflt is None:
            return UNSET, False
        if hasattr(dflt, 'footprint_value'):
            return dflt.footprint_value(), False
        return dflt, False
    return None, False


def extras_of(attrs, desc, defaults, callback, extended, objattrs):
    """What may be substituted besides the attributes themselves."""
    env = dict(callback)
    for v in desc.values():
        oa = objattrs(v)
        if oa is not None:
            env.update(oa)
    for k, v in desc.items():
        if k not in env and k not in attrs:
            env[k] = v
    if extended:
        for k, v in defaults.items():
            k = k.lower()
            if k not in env and k not in attrs:
                env[k] = v
    return env


def _same(a, b):
    return a == b


def _reclass(v, spec):
    ktype = spec.get('type', str)
    if spec.get('isclass', False) or isinstance(v, ktype):
        return v
    return ktype(v, **spec.get('args', {}))


def accept(value, spec):
    """remap, then type, then values, then outcast. Returns the final value."""
    remap = spec.get('remap', {})
    seen = []
    while True:
        hit = [new for old, new in remap.items() if old != 'autoremap' and old == value]
        if not hit:
            break
        if hit[0] == value:
            break
        seen.append(value)
        if len(seen) > len(remap):
            raise _Raise('FootprintMaxIter')
        value = hit[0]
    if value is UNSET:
        return value
    ktype = spec.get('type', str)
    if spec.get('isclass', False):
        if not (isinstance(value, type) and issubclass(value, ktype)):
            raise _Reject(SUBCLASS)
    elif not isinstance(value, ktype):
        try:
            value = ktype(value, **spec.get('args', {}))
        except Exception:
            raise _Reject(RECLASS)
        if value is None:
            raise _Reject(MISSING)
    vals = [_reclass(v, spec) for v in spec.get('values', ())]
    if vals and not any(_same(v, value) for v in vals):
        raise _Reject(OUTSIDE)
    outs = [_reclass(v, spec) for v in spec.get('outcast', ())]
    if any(_same(v, value) for v in outs):
        raise _Reject(OUTCAST)
    if isinstance(value, str) and value == 'None':
        raise _Reject(INVALID, late=True)
    return value


def fmt(value, spec):
    if not spec:
        return str(value)
    if ':' in spec or '!' in spec:
        # '%name:03d' / '%!r' style: field access, then format
        return _foxy('{0' + spec + '}', value)
    try:
        return format(value, spec)
    except (ValueError, TypeError, AttributeError) as e:
        raise _Raise(type(e).__name__)


def _foxy(template, value):
    import string

    class Fmt(string.Formatter):
        def get_field(self, field_name, args, kwargs):
            obj, key = super().get_field(field_name, args, kwargs)
            return (obj() if callable(obj) else obj), key
    try:
        return Fmt().format(template, value)
    except (ValueError, TypeError, AttributeError) as e:
        raise _Raise(type(e).__name__)


def resolve(attrs, desc, defaults=None, callback=None, extended=True, objattrs=lambda v: None):
    defaults = defaults or {}
    callback = callback or {}
    raw = {}
    inputs = set()
    for k, spec in attrs.items():
        raw[k], given = source(k, spec, desc, defaults)
        if given:
            inputs.add(k)
    missing = {k for k, v in raw.items() if v is None}
    if missing:
        return ('reject', {k: {MISSING} for k in missing})
    env = extras_of(attrs, desc, defaults, callback, extended, objattrs)
    final = {}
    status = {}

    def get(k, stack):
        if k in status:
            if isinstance(status[k], Exception):
                raise status[k]
            return final[k]
        if k in stack:
            raise _Raise('FootprintMaxIter')
        try:
            final[k] = accept(substitute(k, raw[k], stack | {k}), attrs[k])
            status[k] = True
        except _Reject as e:
            status[k] = e
            raise
        except _Raise as e:
            status[k] = e
            raise
        return final[k]

    maybe = set()

    def substitute(k, value, stack):
        hopeless = []
        try:
            value = _substitute(k, value, stack, hopeless)
        except _Raise as e:
            if not hopeless:
                raise
            # Both a rejection and an error: whichever comes first is not specified
            maybe.update(e.names)
        if hopeless:
            raise _Reject(MISSING, late=True)
        return value

    def _substitute(k, value, stack, hopeless):
        count = 0
        while isinstance(value, str):
            m = _MARK.search(value)
            if m is None:
                break
            count += 1
            if count > MAXSUB:
                raise _Raise('FootprintMaxIter')
            key, chain, dflt, form = m.groups()
            if key in attrs:
                # a value built on a rejected one is hopeless
                try:
                    item = get(key, stack)
                except _Reject as e:
                    if not e.late:
                        raise _Reject(MISSING)
                    # 'None' is rejected at last: in between, it is a string as any other
                    hopeless.append(e)
                    value = value[:m.start()] + 'None' + value[m.end():]
                    if form:
                        maybe.update(('ValueError', 'TypeError', 'AttributeError'))
                    continue
                item = '__unknown__' if item is UNSET else item
            elif key in env:
                item = env[key]
            elif dflt:
                value = value[:m.start()] + dflt + value[m.end():]
                continue
            else:
                raise _Raise('FootprintUnreachableAttr')
            if chain:
                for step in [s for s in re.split(':+', chain)]:
                    item = getattr(item, step, None)
                    if callable(item):
                        try:
                            item = item() if type(item).__name__ == 'builtin_function_or_method' else \
                                item(View(attrs, get, stack), env)
                        except (_Raise, _Reject):
                            raise
                        except Exception as e:
                            raise _Raise(type(e).__name__)
                    if item is None:
                        raise _Reject(MISSING)
            value = value[:m.start()] + fmt(item, form) + value[m.end():]
        return value

    rejected = {}
    raised = set()
    for k in attrs:
        try:
            get(k, frozenset())
        except _Reject as e:
            rejected.setdefault(k, set()).add(e.reason)
        except _Raise as e:
            raised |= e.names
    raised |= maybe
    if rejected and raised:
        return ('either', rejected, raised)
    if raised:
        return ('raise', raised)
    if rejected:
        return ('reject', rejected)
    return ('ok', final, inputs)


class View(dict):
    """What a method used in a substitution sees of the attributes."""

    def __init__(self, attrs, get, stack):
        super().__init__()
        self._get = get
        self._attrs = attrs
        self._stack = stack

    def __contains__(self, k):
        return k in self._attrs

    def __missing__(self, k):
        if k not in self._attrs:
            raise KeyError(k)
        return self._get(k, self._stack)


def only_ok(only, values, defaults):
    """Do the resolved ``values`` satisfy the ``only`` clauses ?"""
    low = {k.lower(): v for k, v in defaults.items()}
    for key, allowed in only.items():
        if isinstance(allowed, str) or not hasattr(allowed, '__iter__'):
            allowed = [allowed]
        mode, name = '', key
        for prefix in ('after_', 'before_'):
            if key.startswith(prefix):
                mode, name = prefix, key[len(prefix):]
        actual = values.get(name, None) if name in values else low.get(name.lower())
        if actual is None or actual is UNSET:
            return False
        ok = False
        for item in allowed:
            if mode == 'after_':
                ok = ok or actual >= item
            elif mode == 'before_':
                ok = ok or actual < item
            elif hasattr(item, 'match'):
                ok = ok or bool(item.match(actual))
            else:
                ok = ok or actual == item
        if not ok:
            return False
    return True


def match(spec, desc, **env):
    """Resolution + only clauses for a whole class specification (``attr``, ``only``)."""
    res = resolve(spec.get('attr', {}), desc, **env)
    if res[0] == 'ok' and spec.get('only') and not only_ok(spec['only'], res[1], env.get('defaults') or {}):
        return ('reject', {'only': {'only'}})
    return res


def visible(values):
    """Attribute values as seen on the object."""
    return {k: (None if v is UNSET else v) for k, v in values.items()}


def strict_equal(a, b):
    """Same keys, same values, same types."""
    return (set(a) == set(b) and
            all(type(a[k]) is type(b[k]) and (a[k] is b[k] or a[k] == b[k] or (a[k] != a[k] and b[k] != b[k])) for k in a))
